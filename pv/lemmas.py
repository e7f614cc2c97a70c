"""Lemmas over the contracts (source independent) and the special functions whose contract
is about exceptions (wavelet_shape_check, rejection of unsupported options; source dependent)."""
import time
import z3
from . import terms
from .terms import *
from .values import *
from .interp import State
from . import s2fft_ext as X
from . import contracts as K_
from .contracts import *
from .verify import rec, goal, zero, make, heapify, model_of, compare

LEMMAS = []


def lemma(name, *tags):
    def d(f):
        LEMMAS.append((name, tags, f))
        return f
    return d


jz, lz, mz, nz_ = z3.Ints("j l m n")
ran = DOM + [jz >= Jv, jz <= JMAX(Lv, lamv)]
deg = [lz >= 0, lz < Lv]
ordm = [mz > -Lv, mz < Lv]


# ------------------------------------------------------------------ C04 / C08
@lemma("bandlimits are well formed", "C04", "C08")
def _(w):
    Lj, Nj, L0j = scales(Lv, LAM, jz, Nv, True)
    Lj1, Nj1, L0j1 = scales(Lv, LAM, simp(jz + 1), Nv, True)
    ls = LSx(Lv, LAM, Jv, True)
    J = JMAX(Lv, lamv)
    out = [goal("0 <= L0_j < L_j <= L", ran, z3.And(L0j < Lj, Lj <= Lv, L0j >= 0)),
           goal("1 <= L_s <= L", ran, z3.And(ls >= 1, ls <= Lv)),
           goal("L_j does not decrease with j", ran, Lj <= Lj1),
           goal("L_J = L", ran, scales(Lv, LAM, J, Nv, True)[0] == Lv),
           goal("L_(J-1) = L", ran, scales(Lv, LAM, simp(J - 1), Nv, True)[0] == Lv),
           goal("1 <= N_j <= N, N_j = N mod 2", ran, z3.And(Nj >= 1, Nj <= Nv, (Nj - Nv) % 2 == 0)),
           goal("without multiresolution: L, N, 0", ran, z3.And(*[zint(a) == b for a, b in zip(scales(Lv, LAM, jz, Nv, False), (Lv, Nv, 0))]))]
    return out


@lemma("stored degrees and orders contain the support of the filters", "C04", "C01", "C06", "C07")
def _(w):
    Lj, Nj, L0j = scales(Lv, LAM, jz, Nv, True)
    sup = psi_sup(Lv, Nv, Jv, LAM, Sv, S0v, jz, lz, nz_)
    h = ran + SPDOM + deg + [sup]
    return [goal("support within L0_j <= l < L_j", h, z3.And(lz >= L0j, lz < Lj)),
            goal("support within |n| < N_j, n = N_j - 1 mod 2", h, z3.And(nz_ < Nj, nz_ > -Nj, (nz_ + Nj) % 2 == 1)),
            goal("scaling support below L_s", ran + deg + [z3.ToReal(lz) < POW(lamv, Jv)], lz < LSx(Lv, LAM, Jv, True))]


@lemma("filter formula: support, reality and symmetry", "C04", "C11", "C12", "C02")
def _(w):
    psi = lambda n: PSI_formula(Lv, Nv, Jv, LAM, Sv, S0v, jz, lz, n)
    phi = PHI_formula(Lv, Jv, LAM, Sv, S0v, lz)
    h = ran + SPDOM + deg + ordm
    sup = psi_sup(Lv, Nv, Jv, LAM, Sv, S0v, jz, lz, mz)
    return [zero("psi vanishes outside its stated support", psi(mz), h + [z3.Not(sup)]),
            zero("psi_{l,-m} = psi_{l,m}", psi(mz) - psi(-mz), h),
            zero("conj(psi_{l,m}) = (-1)^m psi_{l,m}", conj(psi(mz)) - sgn(mz) * psi(mz), h),
            zero("phi vanishes at l >= lam^J_min", phi, h + [z3.ToReal(lz) >= POW(lamv, Jv)]),
            zero("both vanish below max(|spin|,|spin0|): psi", psi(mz), h + [z3.Not(elmin_ok(lz, Sv, S0v))]),
            zero("both vanish below max(|spin|,|spin0|): phi", phi, h + [z3.Not(elmin_ok(lz, Sv, S0v))])]


# ------------------------------------------------------------------ C15 / C02
@lemma("generating function: values at and beyond the ends of its range", "C15", "C02")
def _(w):
    n = z3.Int("n")
    h = [Lv >= 2, lamv > 1, n >= 3, lz >= 0, jz >= 0]
    lr = z3.ToReal(lz)
    terms.POW_NL[0] = True
    try:
        k = K_def(LAM, n, jz, lz)
        return [zero("k_j(l) = 1 for l <= lam^(j-1)", k - ONE, h + [lr <= POW(lamv, simp(jz - 1))]),
                zero("k_j(l) = 0 for l >= lam^j", k, h + [lr >= POW(lamv, jz)])]
    finally:
        terms.POW_NL[0] = False


@lemma("generating function: monotone in j, one at the last scale", "C15", "C02")
def _(w):
    h = ran + deg
    k = lambda j: real_uf("K", (lamv, z3.IntVal(300), simp(zint(j)), lz))
    return [goal("k_j(l) <= k_{j+1}(l)", h, k(jz) <= k(jz + 1)),
            goal("0 <= k_j(l) <= 1", h, z3.And(k(jz) >= 0, k(jz) <= 1)),
            goal("k_{J+1}(l) = 1 for l < L", h, k(JMAX(Lv, lamv) + 1) == 1),
            goal("k_j(0) = 1", ran + [lz == 0], k(jz) == 1)]


@lemma("axisymmetric admissibility telescopes", "C02", "C01", "C16")
def _(w):
    h = ran + deg
    kp = kap(LAM, 300, jz, lz)
    kr = lambda j: Z(real_uf("K", (lamv, z3.IntVal(300), simp(zint(j)), lz)))
    K1, K0 = kr(jz + 1), kr(jz)
    phi = sqrt(K(LAM, 300, Jv, lz))
    J = JMAX(Lv, lamv)
    # sum_{j=Jm}^{J} kappa_j^2 = k_{J+1} - k_{Jm} by the step below (telescoping: Lean lemma `telescope`)
    return [zero("kappa_j^2 = k_{j+1} - k_j", kp * kp - (K1 - K0), h),
            zero("scaling^2 = k_{J_min}", phi * phi - K(LAM, 300, Jv, lz), h),
            goal("k_{J+1} = 1", h, real_uf("K", (lamv, z3.IntVal(300), simp(J + 1), lz)) == 1)]


@lemma("orders of the directional component are gamma - 2k, 0 <= k <= gamma", "C03", "C02", "C01", "C16")
def _(w):
    N, l, m = Nv, lz, mz
    g = gamma_z(N, l)
    h = [N >= 1, l >= 1]
    k = z3.Int("k")
    return [goal("every order of the support is gamma - 2k", h + [s_sup(N, l, m)], z3.And((g - m) % 2 == 0, (g - m) / 2 >= 0, (g - m) / 2 <= g)),
            goal("gamma - 2k is an order of the support", h + [k >= 0, k <= g], s_sup(N, l, g - 2 * k)),
            goal("gamma >= 0", h, g >= 0)]


@lemma("directional component: parity, band-limit, symmetry", "C03")
def _(w):
    h = [Nv >= 1, Nv <= Lv, lz >= 0, lz < Lv] + ordm
    s = lambda m: S_term(Nv, lz, m, SR_def)
    return [zero("s_{l,-m} = (-1)^m conj(s_{l,m})", s(-mz) - sgn(mz) * conj(s(mz)), h),
            zero("zero for |m| >= N", s(mz), h + [z3.Or(mz >= Nv, mz <= -Nv)]),
            zero("zero for |m| > l", s(mz), h + [z3.Or(mz > lz, mz < -lz)]),
            zero("zero when m and N have the same parity", s(mz), h + [(mz - Nv) % 2 == 0]),
            zero("zero at l = 0", s(mz), h + [lz == 0])]


@lemma("directional filters: energy per degree", "C02", "C01", "C16")
def _(w):
    # 8 pi^2/(2l+1) |psi_{j,l,m}|^2 = kappa_j^2 |s_{l,m}|^2,  4 pi/(2l+1) phi^2 = k_{Jm}   (spin0 = 0)
    h = ran + SPDOM + deg + ordm + [ge_abs(lz, Sv)]
    p = PSI_formula(Lv, Nv, Jv, LAM, Sv, 0, jz, lz, mz)
    s = S_term(Nv, lz, mz)
    kp = kap(LAM, 300, jz, lz)
    ph = PHI_formula(Lv, Jv, LAM, Sv, 0, lz)
    two = lift(2 * lz + 1)
    sd = SR_def(Nv, lz, mz)
    g = gamma_z(Nv, lz)
    return [zero("8pi^2/(2l+1)|psi|^2 = kappa_j^2 |s|^2", C(8) * PI * PI / two * p * conj(p) - kp * kp * s * conj(s), h),
            zero("4pi/(2l+1) phi^2 = k_{J_min}", C(4) * PI / two * ph * ph - K(LAM, 300, Jv, lz), h),
            zero("|s|^2 = C(gamma,k)/2^gamma", sd * sd - binom_sym(g, (g - mz) / 2) / Z(POW(z3.RealVal(2), g)), h + [s_sup(Nv, lz, mz), mz >= 0])]


# ------------------------------------------------------------------ C11
@lemma("Wigner coefficients of a real signal are Hermitian", "C11", "C01")
def _(w):
    # flm Hermitian => w_{l,-m,-n} = (-1)^(m+n) conj(w_{l,m,n}), so the reality flag reads/completes the same values
    op = Op("SHTF", dict(L=Lv, spin=z3.IntVal(0), samp="sampling"), sig("np", SAMPV))
    flm = lambda l, m: sht_coeff(op, 0, True, l, m)
    psi = lambda n: PSI_opaque(Lv, Nv, Jv, LAM, 0, S0v, jz, lz, n)
    wl = lambda m, n: C(8) * PI * PI / lift(2 * lz + 1) * flm(lz, m) * conj(psi(n))
    h = ran + deg + ordm + [nz_ > -Nv, nz_ < Nv, S0v < Lv, -S0v < Lv]
    phi = PHI_opaque(Lv, Jv, LAM, 0, S0v, lz)
    s = lambda m: sqrt(C(4) * PI / lift(2 * lz + 1)) * flm(lz, m) * phi
    real_atom = [z3.BoolVal(True)]
    return [zero("wavelet coefficients Hermitian", wl(-mz, -nz_) - sgn(mz + nz_) * conj(wl(mz, nz_)), h + [mz != 0]),
            zero("scaling coefficients Hermitian", s(-mz) - sgn(mz) * conj(s(mz)), h + [mz != 0])]


# ------------------------------------------------------------------ special functions
def _shape_any(multi):
    """arguments of arbitrary shapes: (list of wavelet arrays, scaling array, precondition, matches)"""
    W = z3.Int("n_scales")
    a, b = z3.Ints("fs_theta fs_phi")
    F = [z3.Function("fw_dim%d" % i, Int, Int) for i in range(3)]
    fw = Lst(n=W, get=lambda k: Arr("np", tuple(f(zint(k)) for f in F), "c", lambda *i: A("fw", i)))
    fs = Arr("np", (a, b), "c", lambda *i: A("fs", i))
    e = dict(L=Lv, N=Nv, J_min=Jv, lam=LAM, sampling=SAMPV, multiresolution=multi)
    ls = LSx(Lv, LAM, Jv, multi)
    n = JMAX(Lv, lamv) - Jv + 1
    ok = [W == n, a == NT(ls, SAMPV), b == NP(ls, SAMPV)]
    okk = lambda q: z3.And(*[f(q) == x for f, x in zip(F, fwj(e, simp(q + Jv)))])
    return fw, fs, [W >= 0, a >= 0, b >= 0], n, ok, okk


def _complete(out, tag, m, pre, n, ok, okk, weak=""):
    """if all assertions hold (for every scale) the shapes match"""
    k = fresh_int("k")
    inst = []
    for pc, cond, gv in m.asserts:
        f = z3.Implies(z3.And(*pc), cond)
        for i, _ in gv:
            f = z3.substitute(f, (i, k + Jv))
        inst.append(f)
    hy = pre + inst
    rs = [goal(tag + ": any other number of scales rejected", hy, ok[0]),
          goal(tag + ": any other scaling shape rejected", hy, z3.And(*ok[1:])),
          goal(tag + ": any other wavelet shape rejected", hy + [k >= 0, k < n], okk(k))]
    for r in rs:
        if weak and r["status"] == "failed":
            r.update(status="undecided", detail="rejection by the assertions in reach not derived; " + weak)
    out += rs


@lemma("wavelet_shape_check accepts exactly the matching shapes", "C08")
def _(w):
    out = []
    fn = w.func("samples.wavelet_shape_check")
    if fn is None:
        return [rec("function present", "unsupported", "samples.wavelet_shape_check")]
    for multi in (False, True):
        m = make(w, inline={"samples.wavelet_shape_check"})
        fw, fs, nn, n, ok, okk = _shape_any(multi)
        pre = list(DOM) + nn
        st = State({}, {}, pre)
        env = dict(f_w=heapify(m, st, fw), f_s=heapify(m, st, fs), L=Lv, N=Nv, J_min=Jv, lam=LAM, sampling=SAMPV, nside=None, multiresolution=multi)
        tag = "multiresolution=%s" % multi
        try:
            m.call_function(st, fn, [], env)
            bad = [r for r in m.raises]
            # soundness: with matching shapes no assertion / bound / raise can fail
            for pc, cond, gv in m.asserts:
                hy = list(pc) + ok + [okk(simp(i - Jv)) for i, _ in gv]
                out.append(goal(tag + ": matching shapes accepted", hy, cond))
            for o in m.obls:
                out.append(goal(tag + ": " + o.name, o.hyps + ok, o.goal, o.loc))
            for pc, exc in bad:
                out.append(rec(tag + ": only assertions", "unsupported", "raise " + exc))
            _complete(out, tag, m, pre, n, ok, okk)
        except (Unsupported, NeedConcrete) as ex:
            out.append(rec(tag + ": within the verified subset", "unsupported", ex))
        except Undecided as ex:
            out.append(rec(tag + ": decided", "undecided", ex))
    return out


def _syn_rejects(w, qual):
    """reference synthesis rejects coefficients of any other shape (the assertions on its paths are not all satisfiable)"""
    out = []
    fn = w.func(qual)
    if fn is None:
        return [rec("function present", "unsupported", qual)]
    for multi in (False, True):
        m = make(w, inline={qual})
        fw, fs, nn, n, ok, okk = _shape_any(multi)
        env, pre = K_.TABLE[qual].params(dict(reality=False, multiresolution=multi, sampling=SAMPV, nside=None))
        pre = list(pre) + nn
        st = State({}, {}, pre)
        env = dict(env, f_wav=fw, f_scal=fs)
        weak = "no assertions were met"
        try:
            m.call_function(st, fn, [], {k: heapify(m, st, x) for k, x in env.items()})
        except (Unsupported, NeedConcrete, Undecided, IndexError) as ex:
            weak = "execution with arbitrary shapes stopped: %s" % ex      # expected after the assertions
        _complete(out, "%s multiresolution=%s" % (qual, multi), m, pre, n, ok, okk, weak)
    return out


for _q in ("base.synthesis", "base.synthesis_looped"):
    lemma(_q + " rejects any other shapes", "C08")(lambda w, q=_q: _syn_rejects(w, q))


@lemma("call interface: positions and defaults of the documented parameters", "C20")
def _(w):
    import ast
    out = []
    for q, want in sorted(K_.SIGNATURES.items()):
        fn = w.func(q)
        if fn is None:
            out.append(rec(q + ": function present", "unsupported", "no function " + q))
            continue
        exp = ast.parse("def f(%s): pass" % want).body[0].args
        ar = fn.node.args
        if ar.posonlyargs or ar.vararg or ar.kwarg:
            out.append(rec(q + ": plain parameters", "unsupported", "*args, **kwargs or positional-only parameters"))
            continue
        names = [a.arg for a in ar.args]
        dflt = dict(zip(names[len(names) - len(ar.defaults):], ar.defaults))
        kd = {a.arg: d for a, d in zip(ar.kwonlyargs, ar.kw_defaults)}
        en = [a.arg for a in exp.args]
        ed = dict(zip(en[len(en) - len(exp.defaults):], exp.defaults))
        for i, a in enumerate(en):
            ok = i < len(names) and names[i] == a
            out.append(rec("%s: parameter %d is %s" % (q, i + 1, a), "proved" if ok else "failed", "" if ok else "parameters are %s" % names))
            if a not in dflt and a not in kd:
                ok = a not in ed
                out.append(rec("%s: default of %s" % (q, a), "proved" if ok else "failed", "" if ok else "no default"))
                continue
            d = dflt[a] if a in dflt else kd[a]
            if a not in ed:
                continue                     # a default that is not documented changes no documented call
            try:
                got = ast.literal_eval(d)
            except (ValueError, SyntaxError):
                out.append(rec("%s: default of %s" % (q, a), "unsupported", ast.unparse(d)))
                continue
            exp_v = ast.literal_eval(ed[a])
            ok = got == exp_v and isinstance(got, bool) == isinstance(exp_v, bool) and (got is None) == (exp_v is None)
            out.append(rec("%s: default of %s is %r" % (q, a, exp_v), "proved" if ok else "failed", "" if ok else "default is %r" % (got,)))
        for a in names[len(en):]:
            out.append(rec("%s: further parameter %s is optional" % (q, a), "proved" if a in dflt else "failed"))
        for a, d in kd.items():
            if a not in en:
                out.append(rec("%s: further parameter %s is optional" % (q, a), "proved" if d is not None else "failed"))
    return out


def _rejects(w, qual, over, drop=()):
    """every path of the call raises ValueError"""
    fn = w.func(qual)
    c = K_.TABLE[qual]
    v = dict(c.variants[0])
    m = make(w, inline={qual})
    try:
        env, pre = c.params(v)
        env = dict(env)
        env.update(over)
        st = State({}, {}, list(pre))
        henv = {k: heapify(m, st, x) for k, x in env.items()}
        n0 = len(m.raises)
        m.call_function(st, fn, [], henv)
        hyps = list(st.pc)
        out = [goal(qual + ": never returns normally", hyps, z3.BoolVal(False))]
        kinds = {e for _, e in m.raises}
        out.append(rec(qual + ": raises ValueError", "proved" if kinds == {"ValueError"} else "failed", kinds, model_of(pre)))
        return out
    except Unsupported as ex:
        return [rec(qual + ": rejection within the verified subset", "unsupported", ex)]
    except (Undecided, NeedConcrete) as ex:
        return [rec(qual + ": rejection decided", "undecided", ex)]


for _q in ("wavelet_c.analysis", "wavelet_c.synthesis"):
    lemma(_q + " rejects HEALPix", "C13")(lambda w, q=_q: _rejects(w, q, dict(sampling="healpix")))
for _m in ("wavelet_precompute", "wavelet_precompute_torch"):
    for _f in ("analysis", "synthesis", "flm_to_analysis"):
        lemma("%s.%s rejects missing kernels" % (_m, _f), "C13")(lambda w, q=_m + "." + _f: _rejects(w, q, dict(precomps=None)))


def run_lemma(world, i):
    name, tags, f = LEMMAS[i]
    t0 = time.time()
    q0 = dict(terms.STATS)
    try:
        out = f(world)
    except Unsupported as e:
        out = [rec(name, "unsupported", e)]
    except (Undecided, z3.Z3Exception) as e:
        out = [rec(name, "undecided", e)]
    return dict(function="lemma: " + name, variant="-", records=out, called=[], inlined=[], assumed=[], external=[],
                time=round(time.time() - t0, 2), solver={k: round(terms.STATS[k] - q0[k], 3) for k in q0})
