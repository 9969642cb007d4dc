"""Every public function of the library as a simulated operation.

op = {"op": name, "b": bundle index, "p": {...}}; call(U, bundle, name, p) -> (function, args, kwargs).
"""
import copy

import numpy

from . import backend
from .bundle import BLK9, BLK16

OPS = {}


class Op(object):
    def __init__(self, name, args, params=None, real=False, views=False, heavy=1, need=None, group=None, pyscf=False, okb=None):
        self.name = name
        self.args = args              # (bundle, params) -> args tuple [, kwargs]
        self.params = params          # (rng, spec) -> dict
        self.real = real              # real data only
        self.views = views            # result may legitimately be windows on the arguments
        self.heavy = heavy
        self.group = group or name.split(".")[0]
        self.pyscf = pyscf
        self.okb = okb                # (spec) -> bool

    def resolve(self, U):
        mod, fn = self.name.split(".", 1)
        obj = U.mods[mod]
        for part in fn.split("."):
            obj = getattr(obj, part.split("#")[0])
        return obj


def op(name, args, **k):
    OPS[name] = Op(name, args, **k)


def A(*names):
    return lambda b, p: (tuple(b.get(n) for n in names), {})


# -- energies --------------------------------------------------------------------------------------------------
op("cc_energy.cc_energy_d", lambda b, p: ((b.get("T2"), b.get("I").oovv), {}))
op("cc_energy.cc_energy_s1", lambda b, p: ((b.get("T1"), b.get("F").ov), {}))
op("cc_energy.cc_energy_s2", lambda b, p: ((b.get("T1"), b.get("I").oovv), {}))
op("cc_energy.cc_energy_s2_a", lambda b, p: ((b.get("T1"), b.get("T1x"), b.get("I").oovv), {}))
op("cc_energy.cc_energy", lambda b, p: ((b.get("T1"), b.get("T2"), b.get("F").ov, b.get("I").oovv), {}))
op("cc_energy.mp2_energy", lambda b, p: ((b.get("T1"), b.get("T2"), b.get("F").ov, b.get("I").oovv), {}))


def _ue(b, p):
    return (((b.get("T1a"), b.get("T1b")), (b.get("T2aa"), b.get("T2ab"), b.get("T2bb")), b.get("Fa").ov, b.get("Fb").ov,
             b.get("Ia").oovv, b.get("Ib").oovv, b.get("Iabab").oovv), {})


op("cc_energy.ucc_energy", _ue)
op("cc_energy.ump2_energy", _ue)
op("cc_energy.rcc_energy", lambda b, p: ((b.get("T1r"), b.get("T2r"), b.get("Fr").ov, b.get("Ir").oovv), {}))

# -- amplitude equations ---------------------------------------------------------------------------------------
E = "cc_equations."
op(E + "lccd_simple", A("F", "I", "T2"))
op(E + "lccsd_simple", A("F", "I", "T1", "T2"))
op(E + "ccd_simple", A("F", "I", "T2"))
op(E + "ccd_ladder_simple", A("I", "T2"))
op(E + "ccd_ring_simple", A("I", "T2"))
op(E + "ccsd_simple", A("F", "I", "T1", "T2"))
op(E + "ccsd_stanton", A("F", "I", "T1", "T2"))
op(E + "ccd_stanton", A("F", "I", "T2"))


def _seq(b, *names):
    return tuple(b.get(n) for n in names)


def _ul(p, x):
    return list(x) if p.get("aslist") else x


def _ucc(b, p):
    return ((b.get("Fa"), b.get("Fb"), b.get("Ia"), b.get("Ib"), b.get("Iabab"),
             _ul(p, _seq(b, "T1a", "T1b")), _ul(p, _seq(b, "T2aa", "T2ab", "T2bb"))), {})


def _pl(rng, s):
    return {"aslist": rng.random() < 0.3}


op(E + "uccsd_stanton", _ucc, params=_pl, heavy=3)
op(E + "rccsd_stanton", A("Fr", "Ir", "T1r", "T2r"))

# -- Lambda ----------------------------------------------------------------------------------------------------
op(E + "ccd_lambda_simple", A("F", "I", "L2", "T2"))
for _n in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
    op(E + _n, A("F", "I", "L1", "L2", "T1", "T2"), heavy=2)
op(E + "lambda_int", A("F", "I", "T1", "T2"))
op(E + "ccsd_lambda_opt_int", A("F", "I", "L1", "L2", "T1", "T2", "intor"))
op(E + "uccsd_lambda_opt", lambda b, p: (
    (b.get("Fa"), b.get("Fb"), b.get("Ia"), b.get("Ib"), b.get("Iabab"),
     _ul(p, _seq(b, "L1a", "L1b")), _ul(p, _seq(b, "L2aa", "L2ab", "L2bb")),
     _ul(p, _seq(b, "T1a", "T1b")), _ul(p, _seq(b, "T2aa", "T2ab", "T2bb"))), {}), params=_pl, heavy=4)
op(E + "rccsd_lambda_opt", A("Fr", "Ir", "L1r", "L2r", "T1r", "T2r"), heavy=2)

# -- densities -------------------------------------------------------------------------------------------------
TFAC = [1.0, 1.0, 0.5, 0.0, -1.3]


def _ptf(rng, s):
    return {"tfac": rng.choice(TFAC)} if rng.random() < 0.7 else {}


def _rdm(*names):
    def f(b, p):
        return tuple(b.get(n) for n in names), ({"tfac": p["tfac"]} if "tfac" in p else {})
    return f


_S = ("T1", "T2", "L1", "L2")
for _n in ("1rdm_ba", "1rdm_ba_opt", "1rdm_ji", "1rdm_ji_opt", "2rdm_cdab", "2rdm_ciab", "2rdm_ciab_opt", "2rdm_bcai",
           "2rdm_bjai", "2rdm_jkai", "2rdm_jkai_opt", "2rdm_kaij", "2rdm_klij", "2rdm_cdab_opt", "2rdm_bcai_opt",
           "2rdm_bjai_opt", "2rdm_kaij_opt", "2rdm_klij_opt"):
    op(E + "ccsd_" + _n, _rdm(*_S), group="rdm")
for _n in ("1rdm_ai", "2rdm_abij", "1rdm_ai_opt", "2rdm_abij_opt"):
    op(E + "ccsd_" + _n, _rdm(*_S), params=_ptf, group="rdm")
_UU = ("T1a", "T1b", "T2aa", "T2ab", "T2bb", "L1a", "L1b", "L2aa", "L2ab", "L2bb")
for _n in ("1rdm_ba", "1rdm_ji", "2rdm_ciab", "2rdm_jkai", "2rdm_cdab", "2rdm_bjai", "2rdm_klij", "2rdm_bcai", "2rdm_kaij"):
    op(E + "uccsd_" + _n, _rdm(*_UU), group="urdm", heavy=2)
for _n in ("1rdm_ai", "2rdm_abij"):
    op(E + "uccsd_" + _n, _rdm(*_UU), params=_ptf, group="urdm", heavy=2)
_R = ("T1r", "T2r", "L1r", "L2r")
for _n in ("1rdm_ba", "1rdm_ji", "1rdm_ai"):
    op(E + "rccsd_" + _n, _rdm(*_R), params=_ptf, group="rrdm")
for _n in ("ciab", "jkai", "cdab", "bjai", "bjia", "klij", "bcai", "kaij", "abij"):
    op(E + "rccsd_2rdm_" + _n, _rdm(*_R), group="rrdm")

# -- determinants ----------------------------------------------------------------------------------------------
C = "ci_utils."


def _ia(rng, s, n=None):
    n = n or s["cn"]
    if n >= 4 and rng.random() < 0.85:
        i, a, j, b = rng.sample(range(n), 4)
        return {"i": i, "a": a, "j": j, "b": b, "k": rng.randrange(64), "l": rng.randrange(64)}
    return {"i": rng.randrange(n), "a": rng.randrange(n), "j": rng.randrange(n), "b": rng.randrange(n),
            "k": rng.randrange(64), "l": rng.randrange(64)}


def _iag(rng, s):
    return _ia(rng, s, 2 * s["cn"])


def _det(b, k, which="g"):
    bas = b.get("gbasis" if which == "g" else "ubasis")
    return bas[k % len(bas)]


class _Method(Op):
    def resolve(self, U):
        meth = self.name.split(".")[2]
        return lambda obj, *a: getattr(obj, meth)(*a)


OPS[C + "Dstring.excite"] = _Method(C + "Dstring.excite", lambda b, p: ((_det(b, p["k"]), p["i"], p["a"]), {}), params=_iag, real=True)
OPS[C + "Pstring.raize"] = _Method(C + "Pstring.raize", lambda b, p: ((b.get("pstr"), p["i"]), {}), params=_ia, real=True)
OPS[C + "Pstring.lower"] = _Method(C + "Pstring.lower", lambda b, p: ((b.get("pstr"), p["i"]), {}), params=_ia, real=True)
OPS[C + "Dstring.__eq__"] = _Method(C + "Dstring.__eq__", lambda b, p: ((_det(b, p["k"]), _det(b, p["l"])), {}), params=_iag, real=True)
OPS[C + "Pstring.__eq__"] = _Method(C + "Pstring.__eq__", lambda b, p: ((b.get("pstr"), b.get("pstrb")), {}), real=True)
op(C + "Dstring", lambda b, p: ((2 * b.s["cn"], _det(b, p["k"]).occ), {}), params=_iag, real=True, views=True)
op(C + "Pstring", lambda b, p: ((b.s["cn"] + 1, b.get("pstr").occ), {}), real=True, views=True)
for _n in ("level", "diff"):
    op(C + _n, lambda b, p: ((_det(b, p["k"]), _det(b, p["l"])), {}), params=_iag, real=True)


def _pstrings(rng, s):
    n = rng.choice([3, 4, 5, 6, 7, 8, 8, 9, 10])
    nocc = rng.randint(1, n - 1) if rng.random() < 0.6 else n // 2
    if rng.random() < 0.2:        # an unsorted occupation
        return {"n": n, "nocc": nocc, "occ": rng.sample([1] * nocc + [0] * (n - nocc), n)}
    return {"n": n, "nocc": nocc, "occ": rng.random() < 0.5}


def _strings(b, p):
    kw = {}
    if isinstance(p["occ"], list):
        kw["occ"] = list(p["occ"])
    elif p["occ"]:
        kw["occ"] = [1] * (p["n"] - p["nocc"]) + [0] * p["nocc"]
    return (p["n"], p["nocc"]), kw


for _n in ("s_strings", "d_strings", "t_strings", "q_strings"):
    op(C + _n, _strings, params=_pstrings, real=True, group="strings")


def _pm(rng, s):
    return {"m": rng.choice([1, 2, 3, 4, 5, 7])}


for _n in ("s_pstrings", "d_pstrings", "vcis_basis", "vcisd_basis"):
    op(C + _n, lambda b, p: ((p["m"],), {}), params=_pm, real=True, group="strings")


def _pub(rng, s):
    n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8])
    r = rng.random()
    na = n // 2 if r < 0.5 else rng.randint(1, n)
    nb = n // 2 if r < 0.1 or r > 0.6 else 1 if n > 5 else rng.randint(1, n)
    return {"n": n, "na": na, "nb": nb, "gs": rng.random() < 0.5}


op(C + "ucis_basis", lambda b, p: ((p["n"], p["na"], p["nb"]), {} if p["gs"] else {"gs": False}), params=_pub, real=True, group="strings")
for _n in ("ucisd_basis", "ucisdt_basis", "ucisdtq_basis"):
    op(C + _n, lambda b, p: ((p["n"], p["na"], p["nb"]), {}), params=_pub, real=True, group="strings")


def _pgb(rng, s):
    h = rng.choice([2, 3, 3, 4, 5])
    return {"n": 2 * h, "ne": rng.randint(1, 2 * h) if rng.random() < 0.6 else h, "gs": rng.random() < 0.5}


op(C + "gcis_basis", lambda b, p: ((p["n"], p["ne"]), {} if p["gs"] else {"gs": False}), params=_pgb, real=True, group="strings")
for _n in ("gcisd_basis", "gcisdt_basis", "gcisdtq_basis"):
    op(C + _n, lambda b, p: ((p["n"], p["ne"]), {}), params=_pgb, real=True, group="strings")


def _pord(rng, s):
    return {"order": rng.choice([1, 2, 3, 3, 4, 4])}


op(C + "gmakeCfromT", lambda b, p: ((b.s["cna"] + b.s["cnb"], 2 * b.s["cn"] - b.s["cna"] - b.s["cnb"], b.get("gT1"), b.get("gT2")),
                                    {"order": p["order"], "occ": b.get("gocc")}), params=_pord, real=True, heavy=6,
   okb=lambda s: s["cn"] < 4 and (s["cn"] == 2 or s["seed"] % 3 == 0))
op(C + "makeCfromT", lambda b, p: ((b.s["cna"], b.s["cn"] - b.s["cna"], b.s["cnb"], b.s["cn"] - b.s["cnb"],
                                    b.get("cT1a"), b.get("cT1b"), b.get("cT2aa"), b.get("cT2ab"), b.get("cT2bb")),
                                   {"order": p["order"]}), params=_pord, real=True, heavy=6, okb=lambda s: s["cn"] <= 4)
op(C + "gci_matrixel", lambda b, p: ((_det(b, p["k"]), _det(b, p["l"]), b.get("gh"), b.get("gI"), 0.25), {}), params=_iag, real=True)
op(C + "ci_matrixel", lambda b, p: ((_det(b, p["k"], "u")[0], _det(b, p["k"], "u")[1], _det(b, p["l"], "u")[0], _det(b, p["l"], "u")[1],
                                     b.get("ha"), b.get("hb"), b.get("cIa"), b.get("cIb"), b.get("cIab"), 0.25), {}), params=_ia, real=True)
op(C + "s_on_vec", lambda b, p: ((b.get("gbasis"), b.get("gvec"), p["i"], p["a"]), {}), params=_iag, real=True)
op(C + "d_on_vec", lambda b, p: ((b.get("gbasis"), b.get("gvec"), p["i"], p["j"], p["a"], p["b"]), {}), params=_iag, real=True)
for _n in ("sa_on_vec", "sb_on_vec"):
    op(C + _n, lambda b, p: ((b.get("ubasis"), b.get("uvec"), p["i"], p["a"]), {}), params=_ia, real=True)
for _n in ("da_on_vec", "db_on_vec", "sasb_on_vec"):
    op(C + _n, lambda b, p: ((b.get("ubasis"), b.get("uvec"), p["i"], p["j"], p["a"], p["b"]), {}), params=_ia, real=True)
op(C + "H_on_vec", lambda b, p: ((b.get("ubasis"), b.get("uvec"), b.get("ha"), b.get("hb"), b.get("cIa"), b.get("cIb"), b.get("cIab")), {}),
   real=True, heavy=4, okb=lambda s: s["nd"] <= 6)
op(C + "gH_on_vec", lambda b, p: ((b.get("gbasis"), b.get("gvec"), b.get("gh"), b.get("gI")), {}), real=True, heavy=3, okb=lambda s: s["nd"] <= 6)

# -- finite temperature ----------------------------------------------------------------------------------------
T = "ft_utils."


def _pft(rng, s):
    d = {"beta": rng.choice([0.5, 1.0, 7.0, 40.0]), "mu": rng.choice([0.0, 0.3, -1.0]), "k": rng.randrange(64)}
    if rng.random() < 0.4:       # nearly the same conditions
        d[rng.choice(["beta", "mu"])] += rng.choice([1e-3, 1e-5, 1e-7])
    return d


op(T + "HtoK", lambda b, p: ((p["beta"],), {}), params=_pft)
for _n in ("fermi_function", "vfermi_function", "grand_potential0", "dgrand_potential0"):
    op(T + _n, lambda b, p: ((p["beta"], float(b.get("eps")[p["k"] % len(b.get("eps"))]), p["mu"]), {}), params=_pft)
for _n in ("ff", "ffv", "GP0", "dGP0"):
    op(T + _n, lambda b, p: ((p["beta"], b.get("eps"), p["mu"]), {}), params=_pft)
op(T + "uGP0", lambda b, p: ((p["beta"], b.get("eps"), b.get("epsb"), p["mu"]), {}), params=_pft)

# -- small tensors ---------------------------------------------------------------------------------------------
op("utils.block_diag", A("matA", "matB"))
op("utils.D1", A("ev", "eo"))
op("utils.D2", A("ev", "eo"))
op("utils.D2u", A("ev", "evb", "eo", "eob"))


def _nn(b):
    s = b.s
    return (s["noa"], s["nva"], s["nob"], s["nvb"])


def _oo(b):
    s = b.s
    return (s["noa"], s["nva"], s["nob"], s["nvb"], s["noa"], s["nva"], s["nob"], s["nvb"])


op("ov_blocks.make_two_e_blocks", lambda b, p: ((b.get("Itot"),) + _oo(b), {}), views=True)
op("ov_blocks.make_two_e_blocks_full", lambda b, p: ((b.get("Itot"),) + _oo(b), {}), views=True)
op("ov_blocks.one_e_blocks", lambda b, p: ((b.get("F").oo, b.get("F").ov, b.get("F").vo, b.get("F").vv), {}), views=True)
op("ov_blocks.two_e_blocks", lambda b, p: ((), {k: getattr(b.get("I"), k) for k in BLK9}), views=True)
op("ov_blocks.two_e_blocks_full", lambda b, p: ((), {k: getattr(b.get("Ir"), k) for k in BLK16}), views=True)
S = "spin_utils."
op(S + "F_to_spin", lambda b, p: ((b.get("Fa"), b.get("Fb")) + _nn(b), {}), real=True)
op(S + "F_to_spatial", lambda b, p: ((b.get("Fso"),) + _nn(b), {}), views=True)
op(S + "T1_to_spin", lambda b, p: ((b.get("T1a"), b.get("T1b")) + _nn(b), {}), real=True)
op(S + "T1_to_spatial", lambda b, p: ((b.get("Tso1"),) + _nn(b), {}))
op(S + "T2_to_spin", lambda b, p: ((b.get("T2aa"), b.get("T2ab"), b.get("T2bb")) + _nn(b), {}), real=True)
op(S + "D2_to_spin", lambda b, p: ((b.get("D2aa"), b.get("T2ab"), b.get("D2bb")) + _nn(b), {}), real=True)
op(S + "T2_to_spatial", lambda b, p: ((b.get("Tso2"),) + _nn(b), {}))
op(S + "int_to_spin_block", lambda b, p: (tuple(b.get("sixblocks")) + (b.s["noa"],) * 4 + (b.s["nob"],) * 4, {}), real=True)
op(S + "int_to_spin", lambda b, p: ((b.get("Isa"), b.get("Isb"), b.get("Iabab")) + _nn(b), {}), real=True)
op(S + "int_to_spin2", lambda b, p: ((b.get("Ia"), b.get("Ib"), b.get("Iabab")) + _nn(b), {}), real=True)
op(S + "int_to_spatial", lambda b, p: ((b.get("Iso"), b.s["noa"], b.s["nob"], b.s["nva"], b.s["nvb"]), {}), views=True)

# -- integrals -------------------------------------------------------------------------------------------------
G = "integrals."


def _panti(rng, s):
    return {"anti": rng.random() < 0.5} if rng.random() < 0.8 else {}


def _kw(p):
    return {"anti": p["anti"]} if "anti" in p else {}


def iop(name, args, **k):
    op(G + name, args, pyscf=True, heavy=k.pop("heavy", 5), **k)


def _oc(s):
    return True


for _n in ("get_chem", "get_phys"):
    iop(_n, lambda b, p: ((b.get("mol"),) + tuple(b.get("orbs")[:4]), _kw(p)), params=_panti, group="intmol")
for _n in ("get_chem_anti", "get_phys_anti"):
    iop(_n, lambda b, p: ((b.get("mol"),) + tuple(b.get("orbs")[:4]), {}), group="intmol")
iop("get_chemu", lambda b, p: ((b.get("mol"),) + tuple(b.get("orbs")), _kw(p)), params=_panti, group="intmol")
for _n in ("get_chem_antiu", "get_phys_antiu"):
    iop(_n, lambda b, p: ((b.get("mol"),) + tuple(b.get("orbs")), {}), group="intmol")
for _n in ("get_chemu_all", "get_physu_all"):
    iop(_n, lambda b, p: ((b.get("mol"), b.get("orbs")[0], b.get("orbs")[4]), _kw(p)), params=_panti, group="intmol")
for _n in ("get_chem_antiu_all", "get_phys_antiu_all"):
    iop(_n, lambda b, p: ((b.get("mol"), b.get("orbs")[0], b.get("orbs")[4]), {}), group="intmol")

for _n in ("get_chem_sol", "get_phys_sol"):
    iop(_n, lambda b, p: ((b.get("psol"),) + tuple(b.get("porbs")[:4]), _kw(p)), params=_panti, group="intsol")
iop("get_chemu_sol", lambda b, p: ((b.get("psol"),) + tuple(b.get("porbs")), _kw(p)), params=_panti, group="intsol")
for _n in ("get_chem_antiu_sol", "get_phys_antiu_sol"):
    iop(_n, lambda b, p: ((b.get("psol"),) + tuple(b.get("porbs")), {}), group="intsol")
for _n in ("get_chemu_all_sol", "get_physu_all_sol"):
    iop(_n, lambda b, p: ((b.get("psol"), b.get("porbs")[0], b.get("porbs")[4]), _kw(p)), params=_panti, group="intsol")


def _pk(rng, s):
    nk = backend.nk_of(s["kmesh"])
    d = {"k": [rng.randrange(nk) for _ in range(3)], "off": rng.random() < 0.2, "k4": rng.randrange(nk)}
    d.update(_panti(rng, s))
    return d


def kquad(b, p, phys):
    """Momentum indices for the call: conserved unless p['off']."""
    mf = b.get("kmf")
    from pyscf.pbc.lib import kpts_helper
    kc = kpts_helper.KptsHelper(mf.cell, mf.kpts).kconserv
    nk = len(mf.kpts)
    k1, k2, k3 = [k % nk for k in p["k"]]
    k4 = p["k4"] % nk if p["off"] else int(kc[k1, k2, k3])
    # chem order (k1 k2|k3 k4); the phys call takes <k1 k3|k2 k4>
    return (k1, k3, k2, k4) if phys else (k1, k2, k3, k4)


iop("get_chem_solk", lambda b, p: ((b.get("kmf"), kquad(b, p, False)) + tuple(b.get("korbs")), _kw(p)), params=_pk, group="intk")
iop("get_phys_solk", lambda b, p: ((b.get("kmf"), kquad(b, p, True)) + tuple(b.get("korbs")), _kw(p)), params=_pk, group="intk")
iop("get_solk_integrals", lambda b, p: ((b.get("kmf"),), {} if p["o"] is None else {"eriorder": p["o"]}),
    params=lambda rng, s: {"o": rng.choice([None, "chem", "phys"])}, group="intk", heavy=20, okb=lambda s: s["kmesh"] == 0 and s["nmo"] == 2)


def _pmf(rng, s):
    d = {"mf": rng.choice(["mfr", "mfu", "psol", "psolu"])}
    d.update(_panti(rng, s))
    return d


iop("get_physu_all_gen", lambda b, p: ((b.get(p["mf"]),), _kw(p)), params=_pmf, group="intgen")
iop("get_phys_antiu_all_gen", lambda b, p: ((b.get(p["mf"]),), {}), params=_pmf, group="intgen")
iop("get_phys_gen", lambda b, p: ((b.get("mfr" if p["mf"].startswith("m") else "psol"),)
                                  + tuple(b.get("orbs" if p["mf"].startswith("m") else "porbs")[:4]), _kw(p)), params=_pmf, group="intgen")


def _pblk(rng, s):
    return {"mf": rng.choice(["mfr", "mfu", "psol", "psolu"]), "code": rng.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])}


iop("eri_blocks", lambda b, p: ((b.get(p["mf"]),), {} if p["code"] is None else {"code": p["code"]}), params=_pblk, group="intgen", heavy=30)

# -- random tensors (only used by the random-stream properties) ------------------------------------------------
GEN = {}


def _size(rng, top):
    return rng.randint(4, 7 if top > 2 else 4) if rng.random() < 0.08 else rng.randint(1, top)


_g2 = lambda rng: (_size(rng, 3), _size(rng, 3))
_g4 = lambda rng: tuple(_size(rng, 3) for _ in range(4))
GEN["make_random_F"] = _g2
GEN["make_random_I"] = _g2
GEN["make_random_I_anti"] = _g2
GEN["make_random_Itot"] = lambda rng: (_size(rng, 4),)
GEN["make_random_Ifull"] = _g2
GEN["make_random_Ifull_gen"] = lambda rng: tuple(_size(rng, 2) for _ in range(8))
GEN["make_random_integrals"] = _g2
GEN["make_random_T"] = _g2
GEN["make_random_T1_spatial"] = _g4
GEN["make_random_T2_spatial"] = _g4
GEN["make_random_L"] = _g2
GEN["make_random_ft_integrals"] = lambda rng: (_size(rng, 4),)
GEN["make_random_ft_T"] = lambda rng: (_size(rng, 3), _size(rng, 3))
GEN["make_random_ft_T1_spatial"] = lambda rng: tuple(_size(rng, 3) for _ in range(3))
GEN["make_random_ft_T2_spatial"] = lambda rng: tuple(_size(rng, 3) for _ in range(3))
GEN["make_random_ft_D"] = lambda rng: (_size(rng, 4),)
GEN["make_random_ft_D1"] = lambda rng: (_size(rng, 4),)
GEN["make_random_ft_D2"] = lambda rng: (_size(rng, 4), _size(rng, 4))


def applicable(name, spec, pyscf=True):
    o = OPS[name]
    if o.real and spec.get("cplx"):
        return False
    if o.pyscf and not pyscf:
        return False
    if o.okb is not None and not o.okb(spec):
        return False
    return True


def names(spec=None, pyscf=True, pred=None):
    out = []
    for n in OPS:
        if spec is not None and not applicable(n, spec, pyscf):
            continue
        if OPS[n].pyscf and not pyscf:
            continue
        if pred is not None and not pred(OPS[n]):
            continue
        out.append(n)
    return out


MISFIT = [0.04]        # share of calls in which one tensor does not fit the others, so that most of them are rejected half-way


def make_params(name, rng, spec):
    o = OPS[name]
    p = o.params(rng, spec) if o.params else {}
    if MISFIT[0] and not o.pyscf and rng.random() < MISFIT[0]:
        p = dict(p, misfit=[rng.randrange(24), rng.randrange(5)])
    return p


def _wrong(a, how):
    if how == 0:
        return numpy.concatenate([a, a[..., :1]], axis=-1)
    if how == 1:
        return numpy.concatenate([a, a[:1]], axis=0)
    if how == 2:
        return a[0].copy()
    if how == 3:
        return a[None].copy()
    return None


def _misfit(args, which, how):
    """The same arguments with one array, also inside a tuple or container, replaced by one of another shape."""
    args = list(args)
    slots = []
    for i, a in enumerate(args):
        if isinstance(a, numpy.ndarray):
            slots.append((i, None))
        elif isinstance(a, (tuple, list)):
            slots += [(i, j) for j, x in enumerate(a) if isinstance(x, numpy.ndarray)]
        elif hasattr(a, "__dict__") and not hasattr(a, "occ"):
            slots += [(i, k) for k, x in sorted(vars(a).items()) if isinstance(x, numpy.ndarray)]
    slots = [(i, j) for i, j in slots if (args[i] if j is None else args[i][j] if isinstance(j, int) else getattr(args[i], j)).ndim]
    if not slots:
        return tuple(args)
    i, j = slots[which % len(slots)]
    if j is None:
        args[i] = _wrong(args[i], how)
    elif isinstance(j, int):
        args[i] = type(args[i])(_wrong(x, how) if k == j else x for k, x in enumerate(args[i]))
    else:
        args[i] = copy.copy(args[i])
        setattr(args[i], j, _wrong(getattr(args[i], j), how))
    return tuple(args)


def call_of(U, bundle, name, p):
    o = OPS[name]
    args, kwargs = o.args(bundle, p)
    if "misfit" in p:
        args = _misfit(args, *p["misfit"])
    return o.resolve(U), args, kwargs
