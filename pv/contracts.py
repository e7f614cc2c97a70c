"""Contracts (pre/postconditions) of the functions of s2wav.

Every contract has
  params(v)   symbolic arguments for a variant v, and the precondition
  spec(env)   the specified result as a function of the arguments
  raises(env) condition under which ValueError must be raised (None: never)
A caller is verified against apply(), i.e. the specification, never the body.
"""
import z3
from .terms import *
from .values import *
from .lib import eqz
from . import s2fft_ext as X
from .s2fft_ext import NT, NP, ge_abs, sht_fwd, sht_inv, wig_fwd, wig_inv, sht_coeff, wig_coeff

R = z3.RealSort()
Lv, Nv, Jv, Sv, S0v, jv = z3.Ints("L N J_min spin spin0 j")
lamv = z3.Real("lam")

JMAX = z3.Function("JMAX", Int, R, Int)
LSF = z3.Function("LS", Int, R, Int, Int)            # L, lam, J_min
LJF = z3.Function("LJ", Int, R, Int, Int)            # L, lam, j
L0F = z3.Function("L0", R, Int, Int)                 # lam, j
L0CF = z3.Function("L0C", Int, R, Int, Int)          # L, lam, j
NJF = z3.Function("NJ", Int, Int, R, Int, Int)       # L, N, lam, j


def zr(x):
    """z3 Real of a scalar value"""
    r = to_real(lift(x))
    if r is None:
        raise Unsupported("real argument")
    return simp(r)


def imin(a, b):
    return z3.If(a <= b, a, b)


def jj(j):
    return z3.If(j == 0, z3.IntVal(1), j)


def _jmax_facts(a):
    L, lam = a
    J = JMAX(L, lam)
    return [z3.Implies(z3.And(L >= 2, lam > 1), z3.And(J >= 1, POW(lam, J - 1) <= z3.ToReal(L), z3.ToReal(L) <= POW(lam, J)))]


def _ls_facts(a):
    L, lam, jm = a
    c = CEIL(POW(lam, jm))
    return [LSF(L, lam, jm) == imin(c, L)]


def _lj_facts(a):
    L, lam, j = a
    k = as_py_int(j)
    out = []
    for cond, e in ((j == 0, z3.IntVal(2)), (j != 0, simp(j + 1))):
        if as_py_bool(cond) is False:
            continue
        out.append(z3.Implies(cond, LJF(L, lam, j) == imin(CEIL(POW(lam, e)), L)))
    return out


def _l0_facts(a):
    lam, j = a
    return [z3.Implies(j == 0, L0F(lam, j) == CEIL(POW(lam, z3.IntVal(0)))), z3.Implies(j != 0, L0F(lam, j) == CEIL(POW(lam, simp(j - 1))))]


def _nj_facts(a):
    L, N, lam, j = a
    m = imin(N, LJF(L, lam, j))
    return [NJF(L, N, lam, j) == m + (m + N) % 2]


FACTS["JMAX"] = _jmax_facts
FACTS["LS"] = _ls_facts
FACTS["LJ"] = _lj_facts
FACTS["L0"] = _l0_facts
FACTS["NJ"] = _nj_facts
FACTS["L0C"] = lambda a: [L0CF(*a) == imin(L0F(a[1], a[2]), LJF(*a) - 1)]


# ------------------------------------------------------------------ terms of the specification
def PART(a, b, n, lam):
    return A("PART", (zr(a), zr(b), zint(n), zr(lam)), True)


def _part_facts(a):
    x, b, n, lam = a
    p = real_uf("PART", a)
    return [z3.Implies(x == b, p == 0), z3.Implies(z3.And(b == 1, x * lam == 1, lam > 1, n >= 3), p > 0)]


FACTS["r_PART"] = _part_facts


def K(lam, n, j, l):
    return A("K", (zr(lam), zint(n), simp(zint(j)), zint(l)), True)


def _k_facts(a):
    lam, n, j, l = a
    k = real_uf("K", a)
    lr = z3.ToReal(l)
    lo, hi = POW(lam, simp(j - 1)), POW(lam, j)
    return [z3.Implies(n == 300, z3.And(k >= 0, k <= 1)), z3.Implies(lr <= lo, k == 1), z3.Implies(lr >= hi, k == 0)]


FACTS["r_K"] = _k_facts


def kap(lam, n, j, l):
    return sqrt(K(lam, n, simp(zint(j) + 1), l) - K(lam, n, j, l))


def SR(N, l, a):
    return A("SR", (zint(N), zint(l), simp(a)), True)


FACTS["r_SR"] = lambda a: [real_uf("SR", a) >= 0]


def nu(N):
    return ite(simp(zint(N) % 2 == 1), ONE, IM)


def absz(x):
    return z3.If(x >= 0, x, -x)


def s_sup(N, l, m):
    N, l, m = zint(N), zint(l), zint(m)
    return z3.And(l >= 1, m <= l, m >= -l, m < N, m > -N, (N + m) % 2 == 1)


def S_term(N, l, m, SR=SR):
    m = zint(m)
    return ite(s_sup(N, l, m), mul(nu(N), ite(m >= 0, SR(N, l, m), SR(N, l, -m))), ZERO)


def gamma_z(N, l):
    t = z3.If((N + l) % 2 == 1, l, l - 1)
    return imin(N - 1, t)


def binom_sym(n, k):
    """C(n,k) written with the smaller of k and n-k (symmetry of binomial coefficients)."""
    return ite(2 * k <= n, A("BINOM", (simp(n), simp(k)), True), A("BINOM", (simp(n), simp(n - k)), True))


FACTS["r_BINOM"] = lambda a: [z3.Implies(z3.And(a[1] >= 0, a[1] <= a[0]), real_uf("BINOM", a) > 0)]


def SR_def(N, l, a):
    g = gamma_z(zint(N), zint(l))
    return sqrt(binom_sym(g, (g - a) / 2) * power(Z(POW(z3.RealVal(2), g)), -1))


def SPN(l, spin):
    """sqrt(prod_{s=-|spin|+1}^{|spin|} (l+s))^(+1 if spin>0 else -1)"""
    l, spin = zint(l), zint(spin)
    def p(a):
        v = fresh_int("s")
        return Prod(v, simp(-a + 1), simp(a + 1), lift(simp(l + v)))
    return ite(spin > 0, power(p(spin), Fraction(1, 2)), power(p(-spin), Fraction(-1, 2)))


def spinfac(l, spin0):
    v = as_py_int(spin0)
    if v == 0:
        return ONE
    return ite(zint(spin0) == 0, ONE, mul(sgn(zint(spin0)), SPN(l, spin0)))


def elmin_ok(l, spin, spin0):
    return z3.And(ge_abs(l, spin), ge_abs(l, spin0))


def PSI_formula(L, N, Jm, lam, spin, spin0, j, l, m, n=300):
    j, l, m = zint(j), zint(l), zint(m)
    return ite(z3.And(j >= zint(Jm), elmin_ok(l, spin, spin0)),
               sqrt(lift(2 * l + 1) / (C(8) * PI * PI)) * kap(lam, n, j, l) * S_term(N, l, m) * spinfac(l, spin0), ZERO)


def PHI_formula(L, Jm, lam, spin, spin0, l, n=300):
    l = zint(l)
    return ite(elmin_ok(l, spin, spin0), sqrt(lift(2 * l + 1) / (C(4) * PI)) * sqrt(K(lam, n, Jm, l)) * spinfac(l, spin0), ZERO)


# opaque filters with the support and symmetry that C04/C12 establish for the formulas
def psi_sup(L, N, Jm, lam, spin, spin0, j, l, n):
    j, l, n = zint(j), zint(l), zint(n)
    lam = zr(lam)
    return z3.And(j >= zint(Jm), elmin_ok(l, spin, spin0), s_sup(N, l, n), z3.ToReal(l) > POW(lam, simp(j - 1)), z3.ToReal(l) < POW(lam, simp(j + 1)))


def PSI_opaque(L, N, Jm, lam, spin, spin0, j, l, n):
    j, l, n = zint(j), zint(l), zint(n)
    a = (zint(N), zint(Jm), zr(lam), zint(spin0))
    return ite(psi_sup(L, N, Jm, lam, spin, spin0, j, l, n),
               mul(nu(N), ite(n >= 0, A("PSIR", a + (j, l, simp(n)), True), A("PSIR", a + (j, l, simp(-n)), True))), ZERO)


def PHI_opaque(L, Jm, lam, spin, spin0, l):
    l = zint(l)
    return ite(z3.And(elmin_ok(l, spin, spin0), z3.ToReal(l) < POW(zr(lam), zint(Jm))),
               A("PHIR", (zint(Jm), zr(lam), zint(spin0), l), True), ZERO)


def scales(L, lam, j, N, multi):
    if multi:
        return LJF(zint(L), zr(lam), zint(j)), NJF(zint(L), zint(N), zr(lam), zint(j)), L0CF(zint(L), zr(lam), zint(j))
    return zint(L), zint(N), z3.IntVal(0)


def LSx(L, lam, Jm, multi):
    return LSF(zint(L), zr(lam), zint(Jm)) if multi else zint(L)


# ------------------------------------------------------------------ contract machinery
class Contract:
    qual = None
    opaque_filters = False

    def __init__(s, qual, params, spec, raises=None, variants=({},), pre=None, tags=(), apply_spec=None, hyps=None, nl=False, need=None):
        s.qual, s.params, s.spec, s.raises, s.variants = qual, params, spec, raises, list(variants)
        s.tags, s.apply_spec, s.nl = tags, apply_spec, nl
        s.pre = pre
        s.need = need

    def apply(s, m, st, env):
        env = dict(env)
        for k, v in env.items():
            if isinstance(v, (Ref, ERef, VRef)):
                env[k] = m.deref(st, v)
            if isinstance(v, Garbage):
                raise Unsupported("undefined argument")
        if s.raises is not None:
            c = s.raises(env)
            if c is not None:
                cz = zbool(c)
                if feasible(st.pc, cz):
                    m.raises.append((list(st.pc) + [cz], "ValueError"))
                st.pc.append(z3.Not(cz))
        if s.pre is not None:
            for name, g in s.pre(env):
                m.oblige(st, "precondition of %s: %s" % (s.qual, name), g)
        v = (s.apply_spec or s.spec)(env)
        return wrap_deep(m, st, v)


def wrap_deep(m, st, v):
    if isinstance(v, tuple):
        return tuple(wrap_deep(m, st, x) for x in v)
    return m.wrap(st, v)


TABLE = {}


def contract(*a, **k):
    c = Contract(*a, **k)
    TABLE[c.qual] = c
    return c


MR = [dict(multiresolution=False), dict(multiresolution=True)]
BASE_PRE = [Lv >= 2, Nv >= 1, Nv <= Lv, lamv > 1]
LAM = Z(lamv)


def need_lam(env):
    return zr(env["lam"]) > 1


def flag(env, k):
    v = env[k]
    r = as_py_bool(zbool(v)) if is_boolv(v) else None
    if r is None:
        raise Unsupported("symbolic flag " + k)
    return r


def pre_L(env):
    out = [("L >= 1", zint(env["L"]) >= 1)]
    if "lam" in env:
        out.append(("lam > 1", zr(env["lam"]) > 1))
    return out


# ------------------------------------------------------------------ samples
contract("samples.j_max", lambda v: (dict(L=Lv, lam=LAM), [Lv >= 2, lamv > 1]), lambda e: JMAX(zint(e["L"]), zr(e["lam"])),
         pre=lambda e: [("L >= 2", zint(e["L"]) >= 2), ("lam > 1", need_lam(e))], tags=("C15",))
contract("samples.scal_bandlimit", lambda v: (dict(L=Lv, J_min=Jv, lam=LAM, **v), [Lv >= 1, Jv >= 0, lamv > 1]),
         lambda e: LSx(e["L"], e["lam"], e["J_min"], flag(e, "multiresolution")), variants=MR, pre=pre_L, tags=("C04", "C08"))
contract("samples.wav_j_bandlimit", lambda v: (dict(L=Lv, j=jv, lam=LAM, **v), [Lv >= 1, jv >= 0, lamv > 1]),
         lambda e: scales(e["L"], e["lam"], e["j"], 1, flag(e, "multiresolution"))[0], variants=MR, pre=pre_L, tags=("C04", "C08"))
contract("samples.L0_j", lambda v: (dict(j=jv, lam=LAM), [jv >= 0, lamv > 1]),
         lambda e: z3.If(zint(e["j"]) == 0, z3.IntVal(0), L0F(zr(e["lam"]), zint(e["j"]))), tags=("C04",))
contract("samples.LN_j", lambda v: (dict(L=Lv, j=jv, N=Nv, lam=LAM, **v), [Lv >= 1, Nv >= 1, jv >= 0, lamv > 1]),
         lambda e: scales(e["L"], e["lam"], e["j"], e["N"], flag(e, "multiresolution")), variants=MR, pre=pre_L, tags=("C04", "C08"))
contract("samples.n_wav_scales", lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM), [Lv >= 2, lamv > 1]),
         lambda e: JMAX(zint(e["L"]), zr(e["lam"])) - zint(e["J_min"]) + 1, tags=("C08",))
SAMPV = SymStr("sampling")


def samp_variants(vs):
    return [dict(v, sampling=SAMPV, nside=None) for v in vs]


contract("samples.f_scal", lambda v: (dict(L=Lv, J_min=Jv, lam=LAM, **v), [Lv >= 1, Jv >= 0, lamv > 1]),
         lambda e: (NT(LSx(e["L"], e["lam"], e["J_min"], flag(e, "multiresolution")), e["sampling"]),
                    NP(LSx(e["L"], e["lam"], e["J_min"], flag(e, "multiresolution")), e["sampling"])), variants=samp_variants(MR), tags=("C08",))


def fwj(e, j):
    Lj, Nj, _ = scales(e["L"], e["lam"], j, e["N"], flag(e, "multiresolution"))
    return (2 * Nj - 1, NT(Lj, e["sampling"]), NP(Lj, e["sampling"]))


def flmnj(e, j, multi=None):
    Lj, Nj, _ = scales(e["L"], e["lam"], j, e["N"], flag(e, "multiresolution") if multi is None else multi)
    return (2 * Nj - 1, Lj, 2 * Lj - 1)


contract("samples.f_wav_j", lambda v: (dict(L=Lv, j=jv, N=Nv, lam=LAM, **v), [Lv >= 1, Nv >= 1, jv >= 0, lamv > 1]),
         lambda e: fwj(e, e["j"]), variants=samp_variants(MR), tags=("C08",))
contract("samples.flmn_wav_j", lambda v: (dict(L=Lv, j=jv, N=Nv, lam=LAM, **v), [Lv >= 1, Nv >= 1, jv >= 0, lamv > 1]),
         lambda e: flmnj(e, e["j"]), variants=MR, tags=("C08",))


def JJ(e):
    return JMAX(zint(e["L"]), zr(e["lam"]))


def zeros(lib, shape):
    return Arr(lib, [simp(zint(x)) for x in shape], "c", lambda *i: ZERO)


def lst(n, get):
    return Lst(n=simp(n), get=get)


def fam_list(e, J, mk):
    jm = zint(e["J_min"])
    n = simp(J - jm + 1)
    if not prove(DOM_HYPS, n >= 0):
        n = z3.If(n > 0, n, z3.IntVal(0))
    return Lst(n=n, get=lambda k: mk(simp(zint(k) + jm)))


DOM = [Lv >= 2, Nv >= 1, Nv <= Lv, lamv > 1, Jv >= 0, Jv < JMAX(Lv, lamv)]
DOM_HYPS = DOM
SC = [dict(v, scattering=x) for v in MR for x in (False, True)]


def constructed(e, lib, shp, J=None):
    J = JJ(e) if J is None else J
    if "scattering" in e and flag(e, "scattering"):
        return zeros(lib, shp(e, simp(J - 1)))
    return fam_list(e, J, lambda j: zeros(lib, shp(e, j)))


contract("samples.construct_f", lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, **v), DOM),
         lambda e: constructed(e, "np", fwj), variants=samp_variants(SC), tags=("C08",))
contract("samples.construct_flmn", lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, **v), DOM),
         lambda e: constructed(e, "np", flmnj), variants=SC, tags=("C08",))
JMAXP = z3.Int("J_max")
JV = [dict(J_max=None), dict(J_max=JMAXP)]


def jpar(e):
    return JJ(e) if e["J_max"] is None else zint(e["J_max"])


JDOM = DOM + [JMAXP >= Jv, JMAXP <= JMAX(Lv, lamv)]
for _l, _n in (("jnp", "jax"), ("torch", "torch")):
    contract("samples.construct_flmn_" + _n, lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, **v), JDOM),
             lambda e, lib=_l: constructed(e, lib, flmnj, jpar(e)), variants=[dict(a, **b) for a in MR for b in JV], tags=("C08",))
    contract("samples.construct_f_" + _n, lambda v: (dict(L=Lv, J_min=Jv, lam=LAM, **v), JDOM),
             lambda e: fam_list(e, jpar(e), lambda j: Lst(items=[])), variants=JV, tags=("C08",))


def flm_buf(e, lib):
    ls = LSx(e["L"], e["lam"], e["J_min"], flag(e, "multiresolution"))
    return zeros(lib, (ls, 2 * ls - 1))


contract("samples.construct_flm", lambda v: (dict(L=Lv, J_min=Jv, lam=LAM, **v), DOM), lambda e: flm_buf(e, "np"), variants=MR, tags=("C08",))
contract("samples.construct_flm_jax", lambda v: (dict(L=Lv, J_min=Jv, lam=LAM, **v), DOM), lambda e: flm_buf(e, "jnp"), variants=MR, tags=("C08",))


# shape check: special (assertions); see verify.py
def inp_arr(lib, name, shape, dtype="c", real=False):
    return Arr(lib, [simp(zint(x)) for x in shape], dtype, lambda *i: A(name, [zint(x) for x in i], real))


# ------------------------------------------------------------------ filters
QV = z3.Int("quad_iters")


def vfun(f, x, lib):
    return f(x)


tv_, av_, bv_ = z3.Reals("t a b")


def TI(t, lam):
    return A("TI", (zr(t), zr(lam)), True)


def TI_def(t, lam):
    """exp(-2/(1-s^2))/t for |s| < 1, else 0, with s = (t - 1/lam) 2 lam/(lam-1) - 1"""
    t, lam = lift(t), lift(lam)
    s = (t - ONE / lam) * (C(2) * lam / (lam - ONE)) - ONE
    z = zr(s)
    return ite(z3.And(z < 1, z > -1), Fn("exp", (C(-2) / (ONE - s * s),)) / t, ZERO)


contract("filters.tiling_integrand", lambda v: (dict(t=Z(tv_), lam=LAM), [lamv > 1, tv_ > 0]), lambda e: TI_def(e["t"], e["lam"]),
         apply_spec=lambda e: TI(e["t"], e["lam"]), tags=("C15",), nl=True)


def PART_def(e):
    """trapezium rule with n steps of the tiling integrand over [a, b], end intervals touching 1/lam or 1 left out"""
    a, b, n, lam = lift(e["a"]), lift(e["b"]), zint(e["n"]), lift(e["lam"])
    h = (b - a) / lift(n)
    i = fresh_int("qi")
    x0, x1 = a + lift(i) * h, a + lift(i + 1) * h
    ends = [zr(ONE / lam), z3.RealVal(1)]
    skip = z3.Or(*[zr(x) == q for x in (x0, x1) for q in ends])
    body = ite(skip, ZERO, (TI(x0, lam) + TI(x1, lam)) * h / C(2))
    return ite(zr(a) == zr(b), ZERO, Sum(i, z3.And(i >= 0, i < n), body))


contract("filters.part_scaling_fn", lambda v: (dict(a=Z(av_), b=Z(bv_), n=z3.Int("n"), lam=LAM), [lamv > 1, av_ > 0, z3.Int("n") >= 1]),
         PART_def, apply_spec=lambda e: PART(e["a"], e["b"], e["n"], e["lam"]), tags=("C15",), nl=True)


def K_def(lam, n, j, l):
    lz, l = zr(lam), zint(l)
    j = zint(j)
    lo, hi = POW(lz, simp(j - 1)), POW(lz, j)
    return ite(z3.ToReal(l) < lo, ONE, ite(z3.ToReal(l) > hi, ZERO,
               PART(lift(l) / Z(hi), 1, n, lam) / PART(ONE / lift(lz), 1, n, lam)))


def k_spec(e, lib, K=K):
    J = JJ(e)
    n = zint(e["quad_iters"])
    return Arr(lib, (simp(J + 2), e["L"]), "f", lambda j, l: K(e["lam"], n, j, l))


for _q, _l in (("filters.k_lam", "np"), ("filters.k_lam_jax", "jnp")):
    contract(_q, lambda v: (dict(L=Lv, lam=LAM, quad_iters=QV), [Lv >= 2, lamv > 1, QV >= 3]), lambda e, lib=_l: k_spec(e, lib, K_def), tags=("C15", "C05", "C02"), nl=True,
             apply_spec=lambda e, lib=_l: k_spec(e, lib))


def ax_spec(e, lib):
    J, L, jm, lam = JJ(e), zint(e["L"]), zint(e["J_min"]), e["lam"]
    return (Arr(lib, (simp(J + 1), L), "f", lambda j, l: ite(zint(j) >= jm, kap(lam, 300, j, l), ZERO)),
            Arr(lib, (L,), "f", lambda l: sqrt(K(lam, 300, jm, l))))


def bad_jmin(e):
    return z3.Or(zint(e["J_min"]) < 0, zint(e["J_min"]) >= JJ(e))


for _q, _l in (("filters.filters_axisym", "np"), ("filters.filters_axisym_vectorised", "np"), ("filters.filters_axisym_jax", "jnp")):
    contract(_q, lambda v: (dict(L=Lv, J_min=Jv, lam=LAM), [Lv >= 2, lamv > 1]), lambda e, lib=_l: ax_spec(e, lib), raises=bad_jmin,
             tags=("C02", "C05", "C13"))


def td_spec(e, lib, SR=SR):
    L, N = zint(e["L"]), zint(e["N"])
    return Arr(lib, (L, simp(2 * L - 1)), "c", lambda l, q: S_term(N, l, simp(zint(q) - L + 1), SR))


for _q, _l in (("filters.tiling_direction", "np"), ("filters.tiling_direction_jax", "jnp")):
    contract(_q, lambda v: (dict(L=Lv, N=Nv), [Lv >= 1, Nv >= 1, Nv <= Lv]), lambda e, lib=_l: td_spec(e, lib, SR_def), tags=("C03", "C05"),
             apply_spec=lambda e, lib=_l: td_spec(e, lib))

contract("filters._spin_normalization", lambda v: (dict(el=z3.Int("el"), spin=Sv), [ge_abs(z3.Int("el"), Sv), Sv != 0, z3.Int("el") >= 0]),
         lambda e: SPN(e["el"], e["spin"]), pre=lambda e: [("el >= |spin|", ge_abs(e["el"], e["spin"]))], tags=("C12",))


def spn_vec(e, lib):
    el = e["el"]
    if not isinstance(el, Arr) or len(el.shape) != 1:
        raise Unsupported("spin normalisation of a non-vector")
    a = Arr(lib, el.shape, "f", lambda i: ite(ge_abs(el.elem(i), e["spin"]), SPN(el.elem(i), e["spin"]), A("SPN_UNSPEC", (zint(el.elem(i)), zint(e["spin"])), True)))
    a.tag = ("need", lambda i: ge_abs(el.elem(i), e["spin"]))
    return a


for _q, _l in (("filters._spin_normalization_vectorised", "np"), ("filters._spin_normalization_jax", "jnp")):
    contract(_q, lambda v: (dict(el=Arr("np", (Lv,), "i", lambda i: zint(i)), spin=Sv), [Lv >= 1, Sv != 0, Sv < Lv, -Sv < Lv]),
             lambda e, lib=_l: spn_vec(e, lib), tags=("C12",), need="spn")


def fd_spec(e, lib, formula=True):
    L, N, jm, lam, sp, s0 = zint(e["L"]), zint(e["N"]), zint(e["J_min"]), e["lam"], zint(e["spin"]), zint(e["spin0"])
    if e.get("using_torch") is True:
        lib = "torch"
    f1 = (lambda j, l, q: PSI_formula(L, N, jm, lam, sp, s0, j, l, simp(zint(q) - L + 1))) if formula else \
         (lambda j, l, q: PSI_opaque(L, N, jm, lam, sp, s0, j, l, simp(zint(q) - L + 1)))
    f2 = (lambda l: PHI_formula(L, jm, lam, sp, s0, l)) if formula else (lambda l: PHI_opaque(L, jm, lam, sp, s0, l))
    return (Arr(lib, (simp(JJ(e) + 1), L, simp(2 * L - 1)), "c", f1), Arr(lib, (L,), "f", f2))


SPDOM = [Sv < Lv, -Sv < Lv, S0v < Lv, -S0v < Lv]
TV = [dict(using_torch=False), dict(using_torch=True)]
S0V = [dict(spin0=0), dict(spin0=S0v, case="spin0>0"), dict(spin0=S0v, case="spin0<0")]
CASES = {"spin0>0": [S0v > 0], "spin0<0": [S0v < 0]}


def fd_params(v):
    v = dict(v)
    c = CASES.get(v.pop("case", None), [])
    return dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, spin=Sv, **v), [Lv >= 2, Nv >= 1, Nv <= Lv, lamv > 1] + SPDOM + c

for _q, _l, _t in (("filters.filters_directional", "np", 1), ("filters.filters_directional_vectorised", "np", 1), ("filters.filters_directional_jax", "jnp", 0)):
    contract(_q, fd_params,
             lambda e, lib=_l: fd_spec(e, lib), raises=bad_jmin, tags=("C02", "C04", "C05", "C12", "C13"),
             variants=[dict(a, **b) for a in (TV if _t else [{}]) for b in S0V],
             apply_spec=lambda e, lib=_l: fd_spec(e, lib, formula=False))

# ------------------------------------------------------------------ transforms
REAL = [dict(reality=False), dict(reality=True)]


def multi_of(e):
    return flag(e, "multiresolution") if "multiresolution" in e else True


def flm_of(e, lib="np"):
    """f_lm of the signal, by the forward transform"""
    return sht_fwd(lib, e["f"], e["L"], e.get("spin", 0), e["sampling"], flag(e, "reality"))


def w_lmn(e, flm, psi, j):
    """Specified Wigner coefficients at scale j, [n, l, m] raw index array."""
    L, N = zint(e["L"]), zint(e["N"])
    Lj, Nj, L0j = scales(e["L"], e["lam"], j, e["N"], multi_of(e))

    def el(k, l, q):
        n, l, m = simp(zint(k) - Nj + 1), zint(l), simp(zint(q) - Lj + 1)
        return ite(ge_abs(l, m), C(8) * PI * PI / lift(simp(2 * l + 1)) * lift(flm.elem(l, simp(m + L - 1))) * conj(psi(j, l, n)), ZERO)
    return Arr("np", (2 * Nj - 1, Lj, 2 * Lj - 1), "c", el), Lj, Nj, L0j


def psi_of(e):
    f = e.get("filters_spec")
    return f


def ana_wav(e, lib, flm, psi, J):
    sc = "scattering" in e and flag(e, "scattering")

    def at(j):
        w, Lj, Nj, L0j = w_lmn(e, flm, psi, j)
        r = wig_inv(lib, w, Lj, Nj, 0, e["sampling"], flag(e, "reality"))
        if sc:
            g = r.elem
            r = Arr(lib, r.shape, "f", lambda *i: Fn("abs", (g(*i),)))
        return r
    return fam_list(e, J, at)


def ana_scal(e, lib, flm, phi):
    L = zint(e["L"])
    ls = LSx(e["L"], e["lam"], e["J_min"], multi_of(e))
    a = Arr("np", (ls, 2 * ls - 1), "c", lambda l, q: ite(ge_abs(l, simp(zint(q) - ls + 1)), sqrt(C(4) * PI / lift(simp(2 * zint(l) + 1))) * lift(flm.elem(l, simp(zint(q) - ls + L))) * phi(l), ZERO))
    return sht_inv(lib, a, ls, e.get("spin", 0), e["sampling"], flag(e, "reality"))


def filt(e):
    """(psi(j,l,n), phi(l)) of the specification"""
    s0 = e.get("spin0", S0v)
    sp = e.get("spin", Sv)
    return (lambda j, l, n: PSI_opaque(e["L"], e["N"], e["J_min"], e["lam"], sp, s0, j, l, n),
            lambda l: PHI_opaque(e["L"], e["J_min"], e["lam"], sp, s0, l))


def filt_args(lib, spin=Sv):
    f = fd_spec(dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, spin=spin, spin0=S0v), lib, formula=False)
    return f


def syn_spec(e, lib):
    L = zint(e["L"])
    psi, phi = filt(e)
    re = flag(e, "reality")
    multi = multi_of(e)
    ls = LSx(e["L"], e["lam"], e["J_min"], multi)
    sc = sht_fwd(lib, e["f_scal"], ls, e.get("spin", 0), e["sampling"], re)
    jm, J = zint(e["J_min"]), JJ(e)
    fw = e["f_wav"]

    def el(l, q):
        l, q = zint(l), zint(q)
        m = simp(q - L + 1)
        j, n = fresh_int("sj"), fresh_int("sn")
        Lj, Nj, L0j = scales(e["L"], e["lam"], j, e["N"], multi)
        W = wig_fwd("np", fw.get(simp(j - jm)), Lj, Nj, 0, e["sampling"], re)
        body = mul(psi(j, l, n), lift(W.elem(simp(n + Nj - 1), l, simp(m + Lj - 1))))
        # the n-th Wigner order and degree l exist in the stored array only for |n| < Nj, l < Lj
        inner = Sum(n, z3.And(n > -zint(e["N"]), n < zint(e["N"])), body)
        t = Sum(j, z3.And(j >= jm, j <= J), inner)
        s = ite(l < ls, sqrt(C(4) * PI / lift(simp(2 * l + 1))) * phi(l) * lift(sc.elem(l, simp(m + ls - 1))), ZERO)
        return ite(ge_abs(l, m), add(t, s), ZERO)
    return sht_inv(lib, Arr("np", (L, 2 * L - 1), "c", el), L, e.get("spin", 0), e["sampling"], re)


def sig(lib, samp):
    return inp_arr(lib, "f", (NT(Lv, samp), NP(Lv, samp)))


def coeff_inputs(lib, samp, multi, re=False):
    ls = LSx(Lv, LAM, Jv, multi)

    def at(k):
        j = simp(zint(k) + Jv)
        Lj, Nj, _ = scales(Lv, LAM, j, Nv, multi)
        return Arr(lib, (simp(2 * Nj - 1), NT(Lj, samp), NP(Lj, samp)), "c", lambda *i: A("f_wav", [simp(zint(k))] + [zint(x) for x in i], False))
    return Lst(n=simp(JMAX(Lv, lamv) - Jv + 1), get=at), inp_arr(lib, "f_scal", (NT(ls, samp), NP(ls, samp)), real=re)


TDOM = DOM + SPDOM


def ptrans(lib, kind, base=False, kern=None, cback=False):
    def params(v):
        v = dict(v)
        samp = v["sampling"]
        multi = v.get("multiresolution", True)
        env = dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, spin=Sv)
        pre = list(TDOM)
        re = v["reality"]
        if re:
            pre.append(Sv == 0)
            env["spin"] = 0
        if cback:
            v.pop("nside", None)
        if base:
            env["spin0"] = S0v
        else:
            f = filt_args(lib, env["spin"])
            env["filters"] = f if kind != "flm" else f[0]
        if kind == "ana":
            env["f"] = sig(lib, samp)
        elif kind == "syn":
            env["f_wav"], env["f_scal"] = coeff_inputs(lib, samp, multi, re)
        else:
            env.pop("spin")
            env["flm"] = None
        env.update({k: x for k, x in v.items() if k != "given"})
        if kern and v.get("given", True):
            env["precomps"] = kernels(kern, kind, samp, re, lib, env.get("spin", 0), v.get("_precomp_shift") is False)
        elif kern == "REC":
            env["precomps"] = None
        if kind == "flm" and v.get("J_max") is not None:
            pre += [JMAXP >= Jv, JMAXP <= JMAX(Lv, lamv)]
        if kind == "flm":
            if re:
                op = Op("SHTF", dict(L=Lv, spin=z3.IntVal(0), samp=X.sname(samp)), sig("np", samp))
                env["flm"] = Arr(lib, (Lv, simp(2 * Lv - 1)), "c", lambda l, q: sht_coeff(op, 0, True, l, simp(zint(q) - Lv + 1)))
            else:
                env["flm"] = Arr(lib, (Lv, simp(2 * Lv - 1)), "c", lambda l, q: ite(ge_abs(l, simp(zint(q) - Lv + 1)), A("flm", [zint(l), zint(q)], False), ZERO))
        return env, pre
    return params


def kern_wig(kind_k, j, samp, re, fwd, lib="jnp"):
    Lj, Nj, L0j = scales(Lv, LAM, j, Nv, True)
    if kind_k == "REC":
        return Kern("REC", dict(L=Lj, N=Nj, reality=re, sampling=samp, forward=fwd, L_lower=L0j), lib)
    return Kern("WIG", dict(L=Lj, N=Nj, reality=re, sampling=samp, forward=fwd), lib)


def kernels(kk, kind, samp, re, lib, spin, dup=False):
    J = JMAX(Lv, lamv)
    fwd = kind == "syn"
    if kk == "REC":
        return Lst(n=simp(J - Jv + 1), get=lambda k: kern_wig("REC", simp(zint(k) + Jv), samp, re, fwd, lib))
    ls = LSx(Lv, LAM, Jv, True)
    return (Kern("SHT", dict(L=Lv, spin=spin, reality=re, sampling=samp, forward=not fwd), lib),
            Kern("SHT", dict(L=ls, spin=spin, reality=re, sampling=samp, forward=fwd), lib),
            Lst(n=simp(J - Jv + (1 if dup else 0)), get=lambda k: kern_wig("WIG", simp(zint(k) + Jv), samp, re, fwd, lib)))


def ana_spec(lib):
    def f(e):
        psi, phi = filt(e)
        flm = flm_of(e, lib)
        return (ana_wav(e, lib, flm, psi, JJ(e)), ana_scal(e, lib, flm, phi))
    return f


def flm_spec(lib):
    def f(e):
        e = dict(e, spin=Sv if not flag(e, "reality") else 0)
        psi, _ = filt(e)
        return ana_wav(e, lib, e["flm"], psi, jpar(e))
    return f


BV = [dict(reality=r, multiresolution=m) for r in (False, True) for m in (False, True)]
contract("base.analysis", ptrans("np", "ana", base=True), ana_spec("np"), variants=samp_variants([dict(v, scattering=s) for v in BV for s in (False, True)]), tags=("C06",))
contract("base.analysis_looped", ptrans("np", "ana", base=True), ana_spec("np"), variants=samp_variants(BV), tags=("C06",))
contract("base.synthesis", ptrans("np", "syn", base=True), lambda e: syn_spec(e, "np"), variants=samp_variants(BV), tags=("C07",))
contract("base.synthesis_looped", ptrans("np", "syn", base=True), lambda e: syn_spec(e, "np"), variants=samp_variants(BV), tags=("C07",))
GV = [dict(reality=r, given=g) for r in (False, True) for g in (True, False)]
contract("wavelet.analysis", ptrans("jnp", "ana", kern="REC"), ana_spec("jnp"), variants=samp_variants(GV), tags=("C06",))
contract("wavelet.synthesis", ptrans("jnp", "syn", kern="REC"), lambda e: syn_spec(e, "jnp"), variants=samp_variants(GV), tags=("C07",))
contract("wavelet.flm_to_analysis", ptrans("jnp", "flm", kern="REC"), flm_spec("jnp"), variants=samp_variants([dict(a, **b) for a in GV for b in JV]), tags=("C09",))
for _m, _l in (("wavelet_precompute", "jnp"), ("wavelet_precompute_torch", "torch")):
    contract(_m + ".analysis", ptrans(_l, "ana", kern="WIG"), ana_spec(_l), variants=samp_variants(REAL), tags=("C06",))
    contract(_m + ".synthesis", ptrans(_l, "syn", kern="WIG"), lambda e, l=_l: syn_spec(e, l), variants=samp_variants(REAL), tags=("C07",))
    contract(_m + ".flm_to_analysis", ptrans(_l, "flm", kern="WIG"), flm_spec(_l), variants=samp_variants([dict(a, **b) for a in REAL for b in JV + ([dict(J_max=JMAXP, _precomp_shift=False)] if _l == "jnp" else [])]), tags=("C09",))
CV = [dict(reality=r) for r in (False, True)]


def c_variants(vs):
    return [dict(v, sampling=s) for v in vs for s in X.SAMP]


contract("wavelet_c.analysis", ptrans("jnp", "ana", cback=True), ana_spec("jnp"), variants=c_variants(CV), tags=("C06",))
contract("wavelet_c.synthesis", ptrans("jnp", "syn", cback=True), lambda e: syn_spec(e, "jnp"), variants=c_variants(CV), tags=("C07",))
contract("wavelet_c.flm_to_analysis", ptrans("jnp", "flm", cback=True), flm_spec("jnp"), variants=samp_variants([dict(a, **b) for a in CV for b in JV]), tags=("C09",))

# ------------------------------------------------------------------ construct
FV = [dict(forward=f, reality=r, using_torch=t) for f in (False, True) for r in (False, True) for t in (False, True)]


def klib(e):
    return "torch" if flag(e, "using_torch") else "jnp"


def wigpre_spec(e):
    jm = zint(e["J_min"])
    return Lst(n=simp(JJ(e) - jm + 1), get=lambda k: _kw(e, "REC", simp(zint(k) + jm)))


def _kw(e, kk, j):
    Lj, Nj, L0j = scales(e["L"], e["lam"], j, e["N"], True)
    p = dict(L=Lj, N=Nj, reality=flag(e, "reality"), sampling=e["sampling"], forward=flag(e, "forward"))
    if kk == "REC":
        p["L_lower"] = L0j
    return Kern(kk, p, klib(e))


def full_spec(e):
    jm = zint(e["J_min"])
    ls = LSx(e["L"], e["lam"], e["J_min"], True)
    wig = Lst(n=simp(JJ(e) - jm), get=lambda k: _kw(e, "WIG", simp(zint(k) + jm)))
    if flag(e, "nospherical"):
        return (Lst(items=[]), Lst(items=[]), wig)
    sp = e.get("spin", 0)
    f, r = flag(e, "forward"), flag(e, "reality")
    return (Kern("SHT", dict(L=zint(e["L"]), spin=sp, reality=r, sampling=e["sampling"], forward=not f), klib(e)),
            Kern("SHT", dict(L=ls, spin=sp, reality=r, sampling=e["sampling"], forward=f), klib(e)), wig)


contract("construct.generate_wigner_precomputes", lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, **v), DOM), wigpre_spec, variants=samp_variants(FV), tags=("C10",))
contract("construct.generate_full_precomputes", lambda v: (dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, spin=Sv, **v), DOM), full_spec,
         variants=samp_variants([dict(v, nospherical=n) for v in FV for n in (False, True)]), tags=("C10",))


# ------------------------------------------------------------------ call interface
from signatures import SIGNATURES          # noqa: E402  (documented parameters and defaults)
