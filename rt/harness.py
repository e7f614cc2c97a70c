"""Concrete side: run the real s2wav on explicit inputs and compare with the specification (oracle.py).
Each prop_Cxx(case) returns a list of failure messages (empty: property held on the case)."""
import copy
import math
import os
import sys
import warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("RT_REPO", "/repo")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import torch
torch.set_num_threads(1)
STUB = os.environ.get("RT_STUB", "1") == "1"
if STUB:
    import stubs
    stubs.install()
import s2fft
from s2fft import base_transforms as s2b
import oracle as O

import s2wav
assert os.path.realpath(s2wav.__file__).startswith(os.path.realpath(REPO)), s2wav.__file__
from s2wav import filters as F, samples as SM
from s2wav.transforms import base as TB, wavelet as TW, wavelet_c as TC, wavelet_precompute as TP, wavelet_precompute_torch as TT, construct as CO

TOL = 1e-9
FAMS = ("looped", "base", "jax", "c", "pre", "torch")
RNG = np.random.default_rng


class Known(Exception):
    pass


def arr(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().resolve_conj().numpy()
    return np.asarray(x)


def cmp(out, what, got, want, tol=TOL):
    """append a message if got differs from want (shape or value)"""
    got, want = arr(got), np.asarray(want)
    if got.shape != want.shape:
        out.append("%s: shape %s instead of %s" % (what, got.shape, want.shape))
        return False
    if got.size == 0:
        return True
    if got.dtype in (np.float32, np.complex64) and want.dtype in (np.float64, np.complex128):
        out.append("%s: single precision" % what)
        return False
    if not np.all(np.isfinite(got)):
        out.append("%s: not finite at %s" % (what, tuple(int(i[0]) for i in np.where(~np.isfinite(got)))))
        return False
    sc = max(1.0, float(np.max(np.abs(want))))
    d = np.abs(got - want)
    if float(np.max(d)) > tol * sc:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        out.append("%s: %s instead of %s at index %s (difference %.3g)" % (what, got[i], want[i], tuple(int(x) for x in i), float(d[i])))
        return False
    return True


def cmprel(out, what, got, want, tol=TOL):
    """elementwise relative comparison (for factorial sized factors)"""
    got, want = arr(got), np.asarray(want)
    if got.shape != want.shape:
        out.append("%s: shape %s instead of %s" % (what, got.shape, want.shape))
        return
    if not np.all(np.isfinite(got)):
        out.append("%s: not finite" % what)
        return
    d = np.abs(got - want) - tol * np.abs(want) - 1e-15
    if got.size and float(np.max(d)) > 0:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        out.append("%s: %s instead of %s at index %s" % (what, got[i], want[i], tuple(int(x) for x in i)))


# ---------------------------------------------------------------- configuration
class Cfg:
    def __init__(s, c):
        s.L, s.N = int(c["L"]), int(c.get("N", 1))
        s.J_min, s.lam = int(c.get("J_min", 0)), float(c.get("lam", 2.0))
        s.spin, s.spin0 = int(c.get("spin", 0)), int(c.get("spin0", 0))
        s.sampling, s.reality = c.get("sampling", "mw"), bool(c.get("reality", False))
        s.multi = bool(c.get("multi", True))
        s.fam = c.get("fam", "base")
        s.seed = int(c.get("seed", 1))
        s.given = bool(c.get("given", True))
        s.J0, s.exact = O.jmax(s.L, s.lam)
        s.J = int(SM.j_max(s.L, s.lam))
        if not (s.J == s.J0 or (s.exact and s.J == s.J0 + 1)):
            s.J = s.J0            # C15 reports it; the rest is checked against the right range
        if s.fam not in ("looped", "base"):
            s.multi, s.spin0 = True, 0
        s.J_max = c.get("J_max")

    def valid(s):
        return (s.L >= 2 and 1 <= s.N <= s.L and s.lam > 1 and 0 <= s.J_min < s.J and abs(s.spin) < s.L and abs(s.spin0) < s.L
                and (not s.reality or s.spin == 0) and not O.near_integer(s.L, s.lam, s.J + 1))

    def filters(s):
        return O.directional(s.L, s.N, s.J_min, s.lam, s.spin, s.spin0, s.J)

    def known(s, what, kind=None):
        """name of the recorded finding that covers an exception of this call, if any (see known_findings.json)"""
        if s.fam == "c":
            for j in range(s.J_min, (s.J if s.J_max is None else s.J_max) + 1):
                l, n, _ = O.scales(s.L, j, s.N, s.lam)
                if n > l:
                    return "KF1"
            if what != "flm" and abs(s.spin) >= O.Ls(s.L, s.J_min, s.lam) and O.Ls(s.L, s.J_min, s.lam) > 1:
                return "KF2"
            if what == "syn" and abs(s.spin) >= O.Ls(s.L, s.J_min, s.lam):
                return "KF2"
        if s.fam in ("pre", "torch") and what == "syn" and s.N == 1 and s.sampling in ("mw", "mwss"):
            return "KF3"
        return None


def sht_inv(flm, L, spin, sampling):
    return s2b.spherical.inverse(flm, L, spin, sampling, None, False)


def wig_inv(W, L, N, sampling):
    return s2b.wigner.inverse(W, L, N, 0, sampling, False, None)


def wig_fwd(f, L, N, sampling):
    return s2b.wigner.forward(np.array(f, complex), L, N, 0, sampling, False, None)


def sht_fwd(f, L, spin, sampling):
    return s2b.spherical.forward(np.array(f, complex), L, spin, sampling, None, False)


def to_fam(c, x):
    if isinstance(x, (list, tuple)):
        return [to_fam(c, y) for y in x]
    if c.fam == "torch":
        return torch.from_numpy(np.array(x))
    if c.fam in ("jax", "pre", "c"):
        return jnp.asarray(x)
    return np.array(x)


def fam_filters(c, filt=None):
    psi, phi = filt or c.filters()
    return (to_fam(c, psi), to_fam(c, phi))


def kernels(c, forward, fam=None):
    fam = fam or c.fam
    if fam == "jax":
        return CO.generate_wigner_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, None, forward, c.reality)
    if fam in ("pre", "torch"):
        return CO.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, None, forward, c.reality, False, fam == "torch", c.spin)


def guarded(c, what, fn):
    k = c.known(what)
    if k is None:
        return fn()
    try:
        return fn()
    except (RuntimeError, IndexError) as e:
        raise Known(k + ": " + ("%s: %s" % (type(e).__name__, str(e).strip().split("\n")[-1]))[:160])
    except Exception as e:
        if type(e).__name__ in ("XlaRuntimeError",):
            raise Known(k + ": " + str(e)[:160])
        raise


def analysis(c, f, filt=None, pre=None, scattering=False):
    def go():
        kw = dict(L=c.L, N=c.N, J_min=c.J_min, lam=c.lam, spin=c.spin, sampling=c.sampling, reality=c.reality)
        if c.fam == "looped":
            return TB.analysis_looped(f, spin0=c.spin0, multiresolution=c.multi, **kw)
        if c.fam == "base":
            return TB.analysis(f, spin0=c.spin0, multiresolution=c.multi, **dict(kw, **(dict(scattering=True) if scattering else {})))
        fl = filt or fam_filters(c)
        if c.fam == "jax":
            return TW.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, None, c.reality, filters=fl, precomps=(pre or kernels(c, False)) if c.given else None)
        if c.fam == "c":
            return TC.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.reality, filters=fl)
        return (TP if c.fam == "pre" else TT).analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, None, c.reality, filters=fl, precomps=pre or kernels(c, False))
    return guarded(c, "ana", go)


def synthesis(c, fw, fs, filt=None, pre=None):
    def go():
        kw = dict(L=c.L, N=c.N, J_min=c.J_min, lam=c.lam, spin=c.spin, sampling=c.sampling, reality=c.reality)
        if c.fam in ("looped", "base"):
            fn = TB.synthesis_looped if c.fam == "looped" else TB.synthesis
            return fn(fw, fs, spin0=c.spin0, multiresolution=c.multi, **kw)
        fl = filt or fam_filters(c)
        if c.fam == "jax":
            return TW.synthesis(fw, fs, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, None, c.reality, filters=fl, precomps=(pre or kernels(c, True)) if c.given else None)
        if c.fam == "c":
            return TC.synthesis(fw, fs, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.reality, filters=fl)
        return (TP if c.fam == "pre" else TT).synthesis(fw, fs, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, None, c.reality, filters=fl, precomps=pre or kernels(c, True))
    return guarded(c, "syn", go)


def flm_analysis(c, flm, J_max, filt=None, pre=None):
    def go():
        fl = filt if filt is not None else fam_filters(c)[0]
        a = (flm, c.L, c.N, c.J_min, J_max, c.lam, c.sampling)
        if c.fam == "jax":
            return TW.flm_to_analysis(*a, None, c.reality, filters=fl, precomps=(pre or kernels(c, False)) if c.given else None)
        if c.fam == "c":
            return TC.flm_to_analysis(*a, c.reality, filters=fl)
        return (TP if c.fam == "pre" else TT).flm_to_analysis(*a, None, c.reality, filters=fl, precomps=pre or kernels(c, False))
    return guarded(c, "flm", go)


def signal(c):
    flm = O.random_flm(RNG(c.seed), c.L, c.spin, c.reality)
    f = sht_inv(flm, c.L, c.spin, c.sampling)
    if c.reality:
        f = f.real
    return flm, f


def sig_in(c, f):
    """real signals are passed as real arrays; the Torch/JAX routines get complex values when the flag is off"""
    return to_fam(c, f)


def spec_coeffs(c, flm):
    psi, phi = c.filters()
    W, S = O.analysis_coeffs(flm, c.L, c.N, c.J_min, c.lam, c.J, psi, phi, c.multi)
    fw = []
    for i, j in enumerate(range(c.J_min, c.J + 1)):
        l, n, _ = O.scales(c.L, j, c.N, c.lam, c.multi)
        fw.append(wig_inv(W[i], l, n, c.sampling))
    ls = O.Ls(c.L, c.J_min, c.lam, c.multi)
    return W, S, fw, (sht_inv(S, ls, c.spin, c.sampling) if abs(c.spin) < ls else np.zeros(O.fs_shape(c.L, c.J_min, c.lam, c.sampling, c.multi), complex))


def random_coeffs(c):
    rng = RNG(c.seed + 7)
    W = []
    for j in range(c.J_min, c.J + 1):
        l_, n_, _ = O.scales(c.L, j, c.N, c.lam, c.multi)
        w = np.zeros((2 * n_ - 1, l_, 2 * l_ - 1), complex)
        for l in range(l_):
            for n in range(-min(n_ - 1, l), min(n_ - 1, l) + 1):
                w[n_ - 1 + n, l, l_ - 1 - l:l_ + l] = rng.standard_normal(2 * l + 1) + 1j * rng.standard_normal(2 * l + 1)
        if c.reality:
            s = np.array([[(-1.0) ** (abs(n - n_ + 1) + abs(m - l_ + 1)) for m in range(2 * l_ - 1)] for n in range(2 * n_ - 1)])
            w = (w + s[:, None, :] * np.conj(w[::-1, :, ::-1])) / 2
        W.append(w)
    ls = O.Ls(c.L, c.J_min, c.lam, c.multi)
    S = O.random_flm(rng, ls, c.spin, c.reality)
    fw = [wig_inv(W[i], *O.scales(c.L, j, c.N, c.lam, c.multi)[:2], c.sampling) for i, j in enumerate(range(c.J_min, c.J + 1))]
    fs = sht_inv(S, ls, c.spin, c.sampling) if abs(c.spin) < ls else np.zeros(O.fs_shape(c.L, c.J_min, c.lam, c.sampling, c.multi), complex)
    if c.reality:
        fw, fs = [x.real + 0j for x in fw], fs.real
    return W, S, fw, fs


# ---------------------------------------------------------------- properties of transforms
def prop_C01(case):
    c = Cfg(case)
    if not c.valid() or c.spin0 != 0:
        return None
    out = []
    flm, f = signal(c)
    filt = fam_filters(c, actual_filters(c) if c.fam not in ("looped", "base") else None)
    fw, fs = analysis(c, sig_in(c, f), filt)
    g = synthesis(c, fw, fs, filt)
    cmp(out, "%s: synthesis(analysis(f)) against f" % c.fam, arr(g) + 0j, f + 0j)
    return out


def actual_filters(c):
    """filters as a user obtains them for the family"""
    if c.fam == "torch":
        p, s = F.filters_directional_vectorised(c.L, c.N, c.J_min, c.lam, c.spin, c.spin0, True)
        return arr(p), arr(s)
    if c.fam == "jax":
        p, s = F.filters_directional_jax(c.L, c.N, c.J_min, c.lam, c.spin, c.spin0)
        return arr(p), arr(s)
    return F.filters_directional_vectorised(c.L, c.N, c.J_min, c.lam, c.spin, c.spin0)


def check_analysis(c, out, fw, fs, flm):
    W, S, wf, sf = spec_coeffs(c, flm)
    if len(fw) != len(wf):
        out.append("%s: %d wavelet scales instead of %d" % (c.fam, len(fw), len(wf)))
    for i, (a, b) in enumerate(zip(fw, wf)):
        cmp(out, "%s: wavelet coefficients of scale %d" % (c.fam, c.J_min + i), arr(a) + 0j, b)
    if fs is not None:
        cmp(out, "%s: scaling coefficients" % c.fam, arr(fs) + 0j, sf)


def prop_C06(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    flm, f = signal(c)
    fw, fs = analysis(c, sig_in(c, f))
    check_analysis(c, out, fw, fs, flm)
    if c.fam == "base":
        sw, ss = analysis(c, sig_in(c, f), scattering=True)
        _, _, wf, sf = spec_coeffs(c, flm)
        if len(sw) != len(wf):
            out.append("scattering: %d scales instead of %d" % (len(sw), len(wf)))
        for i, (a, b) in enumerate(zip(sw, wf)):
            cmp(out, "scattering: modulus of scale %d" % (c.J_min + i), arr(a) + 0j, np.abs(b) + 0j)
        cmp(out, "scattering: scaling coefficients", arr(ss) + 0j, sf)
    return out


def prop_C07(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    W, S, fw, fs = random_coeffs(c)
    psi, phi = c.filters()
    want = O.synthesis_flm(W, S, c.L, c.N, c.J_min, c.lam, c.J, psi, phi, c.multi)
    f = sht_inv(want, c.L, c.spin, c.sampling)
    g = synthesis(c, to_fam(c, fw), to_fam(c, fs))
    cmp(out, "%s: synthesis of arbitrary coefficients" % c.fam, arr(g) + 0j, f)
    return out


def prop_C09(case):
    c = Cfg(case)
    if not c.valid() or c.fam in ("looped", "base"):
        return None
    c.spin = 0
    out = []
    flm, f = signal(c)
    W, S, wf, _ = spec_coeffs(c, flm)
    fl = to_fam(c, flm)
    pre = kernels(c, False)
    for Jm in case.get("J_maxs") or [None, c.J, c.J - 1, c.J_min]:
        if Jm is not None and not (c.J_min <= Jm <= c.J):
            continue
        c.J_max = Jm
        got = flm_analysis(c, fl, Jm, pre=pre)
        n = (c.J if Jm is None else Jm) - c.J_min + 1
        if len(got) != n:
            out.append("%s: flm_to_analysis(J_max=%s) returns %d scales instead of %d" % (c.fam, Jm, len(got), n))
        for i, (a, b) in enumerate(zip(got, wf[:n])):
            cmp(out, "%s: flm_to_analysis(J_max=%s) scale %d" % (c.fam, Jm, c.J_min + i), arr(a) + 0j, b)
    return out


def prop_C11(case):
    c = Cfg(dict(case, spin=0, spin0=case.get("spin0", 0), reality=True))
    if not c.valid():
        return None
    d = Cfg(dict(case, spin=0, spin0=case.get("spin0", 0), reality=False))
    out = []
    flm, f = signal(c)
    fw1, fs1 = analysis(c, to_fam(c, f))
    fw0, fs0 = analysis(d, to_fam(d, f + 0j))
    if len(fw1) != len(fw0):
        out.append("%s: number of scales %d with the flag, %d without" % (c.fam, len(fw1), len(fw0)))
    for i, (a, b) in enumerate(zip(fw1, fw0)):
        cmp(out, "%s: wavelet coefficients with/without reality, scale %d" % (c.fam, c.J_min + i), arr(a) + 0j, arr(b) + 0j)
    cmp(out, "%s: scaling coefficients with/without reality" % c.fam, arr(fs1) + 0j, arr(fs0) + 0j)
    if not out:
        g1, g0 = synthesis(c, fw1, fs1), synthesis(d, fw0, fs0)
        cmp(out, "%s: synthesis with/without reality" % c.fam, arr(g1) + 0j, arr(g0) + 0j)
    return out


def prop_C16(case):
    c = Cfg(case)
    if not c.valid() or c.spin0 != 0:
        return None
    out = []
    flm, f = signal(c)
    filt = fam_filters(c, actual_filters(c) if c.fam not in ("looped", "base") else None)
    fw, fs = analysis(c, sig_in(c, f), filt)
    e = np.zeros(c.L)
    try:
        for i, j in enumerate(range(c.J_min, c.J + 1)):
            l_, n_, _ = O.scales(c.L, j, c.N, c.lam, c.multi)
            w = wig_fwd(arr(fw[i]), l_, n_, c.sampling)
            for l in range(l_):
                e[l] += (2 * l + 1) / (8 * math.pi ** 2) * float(np.sum(np.abs(w[:, l, :]) ** 2))
        ls = O.Ls(c.L, c.J_min, c.lam, c.multi)
        if abs(c.spin) < ls:
            s = sht_fwd(arr(fs), ls, c.spin, c.sampling)
            e[:ls] += np.sum(np.abs(s) ** 2, axis=1)
    except (ValueError, IndexError, AssertionError) as ex:
        out.append("%s: coefficients have unexpected shapes: %s" % (c.fam, ex))
        return out
    cmp(out, "%s: energy per degree" % c.fam, e, np.sum(np.abs(flm) ** 2, axis=1), 1e-8)
    return out


def shp(x):
    return tuple(int(i) for i in x.shape)


def prop_C08(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    L, N, Jm, lam, s, multi = c.L, c.N, c.J_min, c.lam, c.sampling, c.multi
    fwn = [O.fw_shape(L, j, N, lam, s, multi) for j in range(Jm, c.J + 1)]
    fln = []
    for j in range(Jm, c.J + 1):
        a, b, _ = O.scales(L, j, N, lam, multi)
        fln.append((2 * b - 1, a, 2 * a - 1))
    fss = O.fs_shape(L, Jm, lam, s, multi)
    ls = O.Ls(L, Jm, lam, multi)

    def eq(what, got, want):
        if got != want:
            out.append("%s: %s instead of %s" % (what, got, want))
    if case.get("part", "shapes") == "shapes":
        eq("f_scal", tuple(SM.f_scal(L, Jm, lam, s, None, multi)), fss)
        eq("n_wav_scales", int(SM.n_wav_scales(L, N, Jm, lam)), len(fwn))
        eq("scal_bandlimit", int(SM.scal_bandlimit(L, Jm, lam, multi)), ls)
        for i, j in enumerate(range(Jm, c.J + 1)):
            eq("f_wav_j(%d)" % j, tuple(SM.f_wav_j(L, j, N, lam, s, None, multi)), fwn[i])
            eq("flmn_wav_j(%d)" % j, tuple(SM.flmn_wav_j(L, j, N, lam, multi)), fln[i])
            eq("wav_j_bandlimit(%d)" % j, int(SM.wav_j_bandlimit(L, j, lam, multi)), O.Lj(L, j, lam, multi))
        for name, fn, want in (("construct_f", lambda: SM.construct_f(L, N, Jm, lam, s, None, multi), fwn),
                               ("construct_flmn", lambda: SM.construct_flmn(L, N, Jm, lam, multi), fln),
                               ("construct_flmn_jax", lambda: SM.construct_flmn_jax(L, N, Jm, None, lam, multi), fln),
                               ("construct_flmn_torch", lambda: SM.construct_flmn_torch(L, N, Jm, None, lam, multi), fln)):
            v = fn()
            eq(name, [shp(x) for x in v], want)
            for x in v:
                if np.any(arr(x) != 0):
                    out.append(name + ": buffer not zero")
        for Jx in range(Jm, c.J + 1):
            for name, fn in (("construct_flmn_jax", SM.construct_flmn_jax), ("construct_flmn_torch", SM.construct_flmn_torch)):
                eq("%s(J_max=%d)" % (name, Jx), [shp(x) for x in fn(L, N, Jm, Jx, lam, multi)], fln[:Jx - Jm + 1])
            for name, fn in (("construct_f_jax", SM.construct_f_jax), ("construct_f_torch", SM.construct_f_torch)):
                eq("%s(J_max=%d)" % (name, Jx), len(fn(L, Jm, Jx, lam)), Jx - Jm + 1)
        for name, fn in (("construct_f_jax", SM.construct_f_jax), ("construct_f_torch", SM.construct_f_torch)):
            v = fn(L, Jm, None, lam)
            eq(name, len(v), len(fwn))
        for name, fn in (("construct_flm", SM.construct_flm), ("construct_flm_jax", SM.construct_flm_jax)):
            eq(name, shp(fn(L, Jm, lam, multi)), (ls, 2 * ls - 1))
        # shape validation
        good = [np.zeros(x, complex) for x in fwn]
        gs = np.zeros(fss, complex)

        def chk(w, sc):
            try:
                SM.wavelet_shape_check(w, sc, L, N, Jm, lam, s, None, multi)
                return True
            except AssertionError:
                return False
        if not chk(good, gs):
            out.append("wavelet_shape_check rejects matching shapes")
        bad = [("one scale missing", good[:-1], gs), ("first scale missing", good[1:], gs), ("one scale too many", good + [good[-1]], gs),
               ("scaling theta", good, np.zeros((fss[0] + 1, fss[1]))), ("scaling phi", good, np.zeros((fss[0], fss[1] + 1)))]
        for i in range(len(good)):
            for ax in range(3):
                for dl in (-1, 1):
                    sh = list(fwn[i])
                    sh[ax] += dl
                    g = list(good)
                    g[i] = np.zeros(sh, complex)
                    bad.append(("scale %d axis %d by %+d" % (Jm + i, ax, dl), g, gs))
        for what, w, sc in bad:
            if chk(w, sc):
                out.append("wavelet_shape_check accepts: " + what)
        return out
    flm, f = signal(c)
    fw, fs = analysis(c, sig_in(c, f))
    eq("%s: analysis wavelet shapes" % c.fam, [shp(x) for x in fw], fwn)
    eq("%s: analysis scaling shape" % c.fam, shp(fs), fss)
    if c.fam in ("looped", "base"):
        bad = [("one scale too many", fwn + [fwn[-1]], fss), ("one scale missing", fwn[:-1], fss), ("scaling theta", fwn, (fss[0] + 1, fss[1])), ("scaling phi", fwn, (fss[0], fss[1] + 1))]
        for i in range(len(fwn)):
            for ax in range(3):
                sh = list(fwn[i])
                sh[ax] += 1
                bad.append(("scale %d axis %d by 1" % (Jm + i, ax), fwn[:i] + [tuple(sh)] + fwn[i + 1:], fss))
        for what, a, b in bad:
            try:
                synthesis(c, [np.zeros(x, complex) for x in a], np.zeros(b, complex))
            except Exception:
                continue
            out.append("%s: synthesis accepts: %s" % (c.fam, what))
    return out


def prop_C10(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    from s2fft.precompute_transforms import construct as pc
    fwd, tor = bool(case.get("forward")), bool(case.get("torch"))
    L, N, Jm, lam, s, r = c.L, c.N, c.J_min, c.lam, c.sampling, c.reality
    wk = lambda l, n: arr(pc.wigner_kernel(l, n, r, s, None, fwd) if n <= l else pc.wigner_kernel_jax(l, n, r, s, None, fwd))
    sk = lambda l, d: arr(pc.spin_spherical_kernel(l, c.spin, r, s, None, d))
    pre = CO.generate_full_precomputes(L, N, Jm, lam, s, None, fwd, r, False, tor, c.spin)
    def isok(x, what):
        if tor and not isinstance(x, torch.Tensor):
            out.append(what + ": not a tensor")
    if len(pre[2]) != c.J - Jm:
        out.append("full precomputes: %d Wigner kernels instead of %d" % (len(pre[2]), c.J - Jm))
    for i, kx in enumerate(pre[2][:c.J - Jm]):
        l, n, _ = O.scales(L, Jm + i, N, lam)
        cmp(out, "Wigner kernel of scale %d" % (Jm + i), kx, wk(l, n))
        isok(kx, "Wigner kernel of scale %d" % (Jm + i))
    ls = O.Ls(L, Jm, lam)
    if abs(c.spin) < ls:
        cmp(out, "scaling kernel", pre[1], sk(ls, fwd))
    cmp(out, "full-resolution kernel", pre[0], sk(L, not fwd))
    isok(pre[0], "full kernel")
    isok(pre[1], "scaling kernel")
    ns = CO.generate_full_precomputes(L, N, Jm, lam, s, None, fwd, r, True, tor, c.spin)
    if len(ns[0]) or len(ns[1]):
        out.append("nospherical: spherical kernels returned")
    if len(ns[2]) != len(pre[2]):
        out.append("nospherical: %d Wigner kernels" % len(ns[2]))
    for i, (a, b) in enumerate(zip(ns[2], pre[2])):
        cmp(out, "nospherical: kernel of scale %d" % (Jm + i), a, arr(b))
    rec = CO.generate_wigner_precomputes(L, N, Jm, lam, s, None, fwd, r) if not tor else None
    if rec is not None:
        if len(rec) != c.J - Jm + 1:
            out.append("recursion coefficients: %d scales instead of %d" % (len(rec), c.J - Jm + 1))
        for i, a in enumerate(rec[:c.J - Jm + 1]):
            l, n, l0 = O.scales(L, Jm + i, N, lam)
            b = s2fft.generate_precomputes_wigner_jax(l, n, s, None, fwd, r, l0)
            fa, fb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
            if len(fa) != len(fb):
                out.append("recursion coefficients of scale %d: structure" % (Jm + i))
            else:
                for x, y in zip(fa, fb):
                    if shp(x) != shp(y) or not np.array_equal(arr(x), arr(y), equal_nan=True):
                        out.append("recursion coefficients of scale %d differ from those of its bandlimit, directionality and direction" % (Jm + i))
                        break
    # transforms use a kernel valid for each scale
    for fam in ("pre", "torch"):
        d = Cfg(dict(case, fam=fam))
        flm, f = signal(d)
        try:
            fw, fs = analysis(d, sig_in(d, f))
            check_analysis(d, out, fw, fs, flm)
            W, S, rw, rs = random_coeffs(d)
            want = sht_inv(O.synthesis_flm(W, S, L, N, Jm, lam, c.J, *d.filters()), L, c.spin, s)
            g = synthesis(d, to_fam(d, rw), to_fam(d, rs))
            cmp(out, fam + ": synthesis with generated kernels", arr(g) + 0j, want)
        except Known as e:
            pass
    return out


# ---------------------------------------------------------------- properties of filters
def ax_gens():
    return (("filters_axisym", F.filters_axisym), ("filters_axisym_vectorised", F.filters_axisym_vectorised), ("filters_axisym_jax", F.filters_axisym_jax))


def dir_gens(full=True):
    g = [("filters_directional", F.filters_directional), ("filters_directional_vectorised", F.filters_directional_vectorised)]
    if full:
        g += [("filters_directional(torch)", lambda *a: F.filters_directional(*a, using_torch=True)),
              ("filters_directional_vectorised(torch)", lambda *a: F.filters_directional_vectorised(*a, using_torch=True)),
              ("filters_directional_jax", F.filters_directional_jax)]
    return g


def cheap(case):
    return not case.get("jax", True)


def prop_C02(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    for name, g in ax_gens():
        if cheap(case) and name.endswith("jax"):
            continue
        k, s = [arr(x) for x in g(c.L, c.J_min, c.lam)]
        if not (np.all(np.isfinite(k)) and np.all(np.isfinite(s))):
            out.append(name + ": not finite")
            continue
        cmp(out, name + ": sum of squares per degree", s ** 2 + np.sum(k[c.J_min:] ** 2, axis=0), np.ones(c.L))
        if abs(s[0] - 1) > TOL:
            out.append(name + ": scaling function at degree zero is %s" % s[0])
    ls = np.arange(c.L)
    for name, g in dir_gens(not cheap(case)):
        p, s = [arr(x) for x in g(c.L, c.N, c.J_min, c.lam, c.spin, 0)]
        if not (np.all(np.isfinite(p)) and np.all(np.isfinite(s))):
            out.append(name + ": not finite")
            continue
        e = 4 * np.pi / (2 * ls + 1) * np.abs(s) ** 2 + 8 * np.pi ** 2 / (2 * ls + 1) * np.sum(np.abs(p[c.J_min:]) ** 2, axis=(0, 2))
        cmp(out, name + ": admissibility per degree", e[abs(c.spin):], np.ones(c.L - abs(c.spin)))
    return out


def prop_C03(case):
    L, N = int(case["L"]), int(case.get("N", 1))
    if not (2 <= L and 1 <= N <= L):
        return None
    out = []
    gens = [("tiling_direction", F.tiling_direction)]
    if not cheap(case):
        gens.append(("tiling_direction_jax", F.tiling_direction_jax))
    want = O.direction(L, N)
    for name, g in gens:
        s = arr(g(L, N))
        if s.shape != (L, 2 * L - 1):
            out.append("%s: shape %s" % (name, s.shape))
            continue
        e = np.sum(np.abs(s) ** 2, axis=1)
        cmp(out, name + ": energy per degree", e, np.r_[0.0, np.ones(L - 1)])
        m = np.arange(-L + 1, L)
        sg = (-1.0) ** np.abs(m)
        cmp(out, name + ": symmetry s_{l,-m} = (-1)^m conj(s_{l,m})", s[:, ::-1], sg * np.conj(s))
        off = (np.abs(m) >= N) | ((m - N) % 2 == 0)
        if np.any(np.abs(s[:, off]) > 0):
            out.append(name + ": nonzero at |m| >= N or at orders of the parity of N")
        for l in range(L):
            if np.any(s[l, np.abs(m) > l] != 0):
                out.append(name + ": nonzero at |m| > l, l=%d" % l)
                break
        cmp(out, name + ": values", s, want)
    return out


def prop_C04(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    L, N, Jm, lam = c.L, c.N, c.J_min, c.lam
    prev = 0
    gens = [(n, g) for n, g in dir_gens(not cheap(case))]
    vals = [(n, [arr(x) for x in g(L, N, Jm, lam, c.spin, c.spin0)]) for n, g in gens]
    for j in range(Jm, c.J + 1):
        lj, nj, l0 = [int(x) for x in SM.LN_j(L, j, N, lam, True)]
        if tuple(int(x) for x in SM.LN_j(L, j, N, lam, False)) != (L, N, 0):
            out.append("LN_j without multiresolution at j=%d" % j)
        if not (0 <= l0 <= lj <= L) or lj < prev or (nj - N) % 2 or nj > N or nj < 1:
            out.append("LN_j(j=%d) = %s not well formed" % (j, (lj, nj, l0)))
        if (lj, nj) != O.scales(L, j, N, lam)[:2]:
            out.append("LN_j(j=%d) = %s instead of %s" % (j, (lj, nj, l0), O.scales(L, j, N, lam)))
        if j >= c.J - 1 and lj != L:
            out.append("bandlimit of scale %d is %d instead of L" % (j, lj))
        if int(SM.wav_j_bandlimit(L, j, lam, True)) != lj:
            out.append("wav_j_bandlimit(%d)" % j)
        lo = int(SM.L0_j(j, lam))
        prev = lj
        for n, (p, s) in vals:
            q = np.abs(p[j])
            if np.any(q[:max(l0, 0)] > 0) or np.any(q[lj:] > 0) or np.any(q[:lo] > 0):
                out.append("%s: filter of scale %d reaches outside degrees [%d,%d)" % (n, j, max(l0, lo), lj))
            m = np.arange(-L + 1, L)
            if np.any(q[:, np.abs(m) >= nj] > 0) or np.any(q[:, (m - nj) % 2 == 0] > 0):
                out.append("%s: filter of scale %d has orders outside |n| < %d of the right parity" % (n, j, nj))
    ls = int(SM.scal_bandlimit(L, Jm, lam, True))
    if not 1 <= ls <= L or ls != O.Ls(L, Jm, lam) or int(SM.scal_bandlimit(L, Jm, lam, False)) != L:
        out.append("scal_bandlimit = %d" % ls)
    for n, (p, s) in vals:
        if np.any(np.abs(s[ls:]) > 0):
            out.append("%s: scaling filter reaches degree >= %d" % (n, ls))
    return out


def prop_C05(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    L, N, Jm, lam = c.L, c.N, c.J_min, c.lam
    want = O.axisym(L, Jm, lam, c.J)
    for name, g in ax_gens():
        if cheap(case) and name.endswith("jax"):
            continue
        r = g(L, Jm, lam)
        cmp(out, name + " wavelet", r[0], want[0], 1e-7)
        cmp(out, name + " scaling", r[1], want[1], 1e-7)
    ref = None
    for name, g in ax_gens():
        if cheap(case) and name.endswith("jax"):
            continue
        r = [arr(x) for x in g(L, Jm, lam)]
        ref = ref or r
        cmp(out, name + " wavelet against looped", r[0], ref[0])
        cmp(out, name + " scaling against looped", r[1], ref[1])
    psi, phi = c.filters()
    ref = None
    for name, g in dir_gens(not cheap(case)):
        r = g(L, N, Jm, lam, c.spin, c.spin0)
        if "torch" in name and not all(isinstance(x, torch.Tensor) for x in r):
            out.append(name + ": not tensors")
        r = [arr(x) for x in r]
        ref = ref or r
        cmp(out, name + " wavelet", r[0], psi, 1e-7)
        cmp(out, name + " scaling", r[1], phi, 1e-7)
        cmp(out, name + " wavelet against looped", r[0], ref[0])
        cmp(out, name + " scaling against looped", r[1], ref[1])
        if r[0].shape == psi.shape and np.any(r[0][:Jm] != 0):
            out.append(name + ": scales below J_min not zero")
    q = int(case.get("quad_iters", 300))
    a = F.k_lam(L, lam, q)
    kk = O.k(L, lam, c.J, q)
    cmp(out, "k_lam", a, kk, 1e-7)
    s = F.tiling_direction(L, N)
    cmp(out, "tiling_direction", s, O.direction(L, N))
    if not cheap(case):
        cmp(out, "k_lam_jax", F.k_lam_jax(L, lam, q), np.asarray(a))
        cmp(out, "tiling_direction_jax", F.tiling_direction_jax(L, N), s)
    return out


def prop_C12(case):
    c = Cfg(case)
    if not c.valid():
        return None
    out = []
    L, N, Jm, lam = c.L, c.N, c.J_min, c.lam
    lo = max(abs(c.spin), abs(c.spin0))
    for name, g in dir_gens(not cheap(case)):
        p0, s0 = [arr(x) for x in g(L, N, Jm, lam, 0, 0)]
        p, s = [arr(x) for x in g(L, N, Jm, lam, c.spin, c.spin0)]
        fac = np.array([O.spin_factor(l, c.spin0) if l >= lo else 0.0 for l in range(L)])
        if not (np.all(np.isfinite(p)) and np.all(np.isfinite(s))):
            out.append(name + ": not finite")
            continue
        cmprel(out, name + " wavelet against spin0=0 times the factor", p, p0 * fac[None, :, None])
        cmprel(out, name + " scaling against spin0=0 times the factor", s, s0 * fac)
    return out


def raises(fn):
    try:
        fn()
        return None
    except Exception as e:
        return type(e).__name__


def prop_C13(case):
    out = []
    if case.get("what") == "reject":
        L, N, lam = int(case["L"]), int(case.get("N", 1)), float(case.get("lam", 2.0))
        for mod, name in ((TC, "C"),):
            f = jnp.zeros((L, 2 * L - 1), complex)
            for Jm in (0, 1):
                psi, phi = O.directional(L, N, Jm, lam, 0, 0, O.jmax(L, lam)[0])
                fl = (jnp.asarray(psi), jnp.asarray(phi))
                for real in (False, True):
                    e = raises(lambda: mod.analysis(f, L, N, Jm, lam, 0, "healpix", real, filters=fl))
                    if e != "ValueError":
                        out.append("C analysis with healpix sampling: %s instead of ValueError" % e)
                    e = raises(lambda: mod.synthesis([f[None]], f, L, N, Jm, lam, 0, "healpix", real, filters=fl))
                    if e != "ValueError":
                        out.append("C synthesis with healpix sampling: %s instead of ValueError" % e)
        for mod, fam in ((TP, "pre"), (TT, "torch")):
            for real in (False, True):
                c = Cfg(dict(case, fam=fam, reality=real, J_min=0))
                fl = fam_filters(c)
                flm, f = signal(c)
                W, S, fw, fs = random_coeffs(c)
                for nm, fn in (("analysis", lambda: mod.analysis(to_fam(c, f), L, N, 0, lam, 0, c.sampling, None, real, filters=fl)),
                               ("synthesis", lambda: mod.synthesis(to_fam(c, fw), to_fam(c, fs), L, N, 0, lam, 0, c.sampling, None, real, filters=fl)),
                               ("flm_to_analysis", lambda: mod.flm_to_analysis(to_fam(c, flm), L, N, 0, None, lam, c.sampling, None, real, filters=fl[0]))):
                    e = raises(fn)
                    if e != "ValueError":
                        out.append("%s %s without kernels: %s instead of ValueError" % (fam, nm, e))
        return out
    L, lam, N = int(case["L"]), float(case.get("lam", 2.0)), int(case.get("N", 1))
    Jm = int(case["J_min"])
    J = int(SM.j_max(L, lam))
    bad = Jm < 0 or Jm >= J
    gens = [(n, lambda g=g: g(L, Jm, lam)) for n, g in ax_gens()] + [(n, lambda g=g: g(L, N, Jm, lam, int(case.get("spin", 0)), int(case.get("spin0", 0)))) for n, g in dir_gens()]
    for n, fn in gens:
        e = raises(fn)
        if bad and e != "ValueError":
            out.append("%s accepts J_min=%d with J=%d (%s)" % (n, Jm, J, e))
        if not bad and e is not None:
            out.append("%s rejects the valid J_min=%d with J=%d (%s)" % (n, Jm, J, e))
    return out


def prop_C15(case):
    L, lam = int(case["L"]), float(case.get("lam", 2.0))
    out = []
    J0, exact = O.jmax(L, lam)
    J = SM.j_max(L, lam)
    if not (int(J) == J and (J == J0 or (exact and J == J0 + 1))):
        out.append("j_max = %s instead of %s" % (J, J0))
        return out
    J = int(J)
    if case.get("what") == "jmax" or O.near_integer(L, lam, J + 1):
        return out
    q = int(case.get("quad_iters", 300))
    gens = [("k_lam", F.k_lam)] + ([] if cheap(case) else [("k_lam_jax", F.k_lam_jax)])
    for name, g in gens:
        k = arr(g(L, lam, q) if q != 300 else g(L, lam))
        if k.shape != (J + 2, L):
            out.append("%s: shape %s" % (name, k.shape))
            continue
        if not np.all(np.isfinite(k)):
            out.append(name + ": not finite")
            continue
        if np.any(k < -TOL) or np.any(k > 1 + TOL):
            out.append("%s: outside [0,1]" % name)
        if np.any(np.diff(k, axis=1) > TOL):
            out.append("%s: increases with l" % name)
        if np.any(np.diff(k, axis=0) < -TOL):
            out.append("%s: decreases with j" % name)
        for j in range(J + 2):
            lo, hi = O.Fraction(lam) ** (j - 1), O.Fraction(lam) ** j
            for l in range(L):
                if l <= lo and abs(k[j, l] - 1) > TOL:
                    out.append("%s: k_%d(%d) = %s at l <= lam^(j-1)" % (name, j, l, k[j, l]))
                    break
                if l >= hi and abs(k[j, l]) > TOL:
                    out.append("%s: k_%d(%d) = %s at l >= lam^j" % (name, j, l, k[j, l]))
                    break
        cmp(out, name + ": scale J+1", k[J + 1], np.ones(L))
        cmp(out, name + ": values", k, O.k(L, lam, J, q), 1e-7)
    return out


# ---------------------------------------------------------------- purity
def frozen(x):
    if isinstance(x, (list, tuple)):
        return [frozen(y) for y in x]
    if isinstance(x, (np.ndarray, jnp.ndarray, torch.Tensor)):
        return np.array(arr(x), copy=True)
    return x


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def scribble(x):
    """modify everything reachable from a returned value that can be modified"""
    if isinstance(x, list):
        for y in x:
            scribble(y)
        x.append("scribble")
        x.reverse()
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x += 3
    elif isinstance(x, torch.Tensor):
        x += 3


def pure_ops(c):
    """name -> (function of argument tuple, argument builder) for one configuration"""
    a = (c.L, c.N, c.J_min, c.lam)
    ops = {}
    for n, g in ax_gens():
        ops[n] = (lambda *x, g=g: g(*x), lambda: (c.L, c.J_min, c.lam))
    for n, g in dir_gens():
        ops[n] = (lambda *x, g=g: g(*x), lambda: a + (c.spin, c.spin0))
    for n in ("tiling_direction", "tiling_direction_jax"):
        ops[n] = (getattr(F, n), lambda: (c.L, c.N))
    for n in ("k_lam", "k_lam_jax"):
        ops[n] = (getattr(F, n), lambda: (c.L, c.lam))
    for n, args in (("construct_f", a + (c.sampling, None, c.multi)), ("construct_flmn", a + (c.multi,)), ("construct_flm", (c.L, c.J_min, c.lam, c.multi)),
                    ("construct_flm_jax", (c.L, c.J_min, c.lam, c.multi)), ("construct_flmn_jax", (c.L, c.N, c.J_min, c.J_max, c.lam, c.multi)),
                    ("construct_flmn_torch", (c.L, c.N, c.J_min, c.J_max, c.lam, c.multi)), ("construct_f_jax", (c.L, c.J_min, c.J_max, c.lam)),
                    ("construct_f_torch", (c.L, c.J_min, c.J_max, c.lam))):
        ops[n] = (getattr(SM, n), lambda args=args: args)
    for tor in (False, True):
        for fw in (False, True):
            for ns in (False, True):
                ops["generate_full_precomputes(forward=%s,nospherical=%s,torch=%s)" % (fw, ns, tor)] = (CO.generate_full_precomputes, lambda fw=fw, tor=tor, ns=ns: a + (c.sampling, None, fw, c.reality, ns, tor, c.spin))
    for fw in (False, True):
        ops["generate_wigner_precomputes(forward=%s)" % fw] = (CO.generate_wigner_precomputes, lambda fw=fw: a + (c.sampling, None, fw, c.reality))
    return ops


def trans_ops(c):
    ops = {}
    flm, f = signal(c)
    W, S, rw, rs = random_coeffs(c)
    filt = fam_filters(c)
    ops[c.fam + ".analysis"] = (lambda f_, p, s, pre: analysis(c, f_, (p, s), pre), lambda: (to_fam(c, f), to_fam(c, filt[0]) if c.fam != "torch" else filt[0].clone(), filt[1], kernels(c, False)))
    ops[c.fam + ".synthesis"] = (lambda w, s_, p, s, pre: synthesis(c, w, s_, (p, s), pre), lambda: (to_fam(c, rw), to_fam(c, rs), filt[0], filt[1], kernels(c, True)))
    if c.fam not in ("looped", "base"):
        ops[c.fam + ".flm_to_analysis"] = (lambda x, p, pre: flm_analysis(c, x, c.J_max, p, pre), lambda: (to_fam(c, flm), filt[0], kernels(c, False)))
    elif c.fam == "base":
        ops["base.analysis(scattering)"] = (lambda f_: analysis(c, f_, scattering=True), lambda: (to_fam(c, f),))
    return ops


def prop_C14(case):
    """histories: every operation on several configurations, interleaved, results modified in between; compared with
    the first result and, across configurations, with the specification"""
    out = []
    cfgs = [Cfg(x) for x in case["cfgs"]]
    cfgs = [c for c in cfgs if c.valid()]
    if not cfgs:
        return None
    tables = []
    for c in cfgs:
        t = pure_ops(c) if case.get("what") == "generators" else trans_ops(c)
        tables.append(t)
    names = [n for n in tables[0] if all(n in t for t in tables)]
    only = case.get("only")
    if case.get("digest"):
        return {"digest": digests(case, tables, names)}
    for n in names:
        if only and n not in only:
            continue
        first = []
        for rnd in range(3):
            for i, t in enumerate(tables):
                fn, mk = t[n]
                args = mk()
                snap = frozen(args)
                try:
                    r = fn(*args)
                except Known:
                    first.append(None)
                    continue
                if not same(frozen(args), snap):
                    out.append("%s modifies an argument (configuration %d)" % (n, i))
                v = frozen(r)
                if rnd == 0:
                    first.append(v)
                elif first[i] is not None and not same(v, first[i]):
                    out.append("%s: different result on call %d with equal arguments (configuration %d)" % (n, rnd + 1, i))
                # second call while the first result is alive: storage is not shared
                if rnd == 0 and i == 0:
                    r2 = fn(*mk())
                    v2 = frozen(r2)
                    if not same(v2, v):
                        out.append("%s: different result on an immediate second call" % n)
                    scribble(r2)
                    if not same(frozen(r), v):
                        out.append("%s: two results share storage" % n)
                scribble(r)
                if not same(frozen(args), snap):
                    out.append("%s: a returned array shares storage with an argument" % n)
        # stale state across configurations: compare with the reverse order in a process of its own (done by the driver)
    return out


# ---------------------------------------------------------------- call interface
MODS = {"base": TB, "wavelet": TW, "wavelet_c": TC, "wavelet_precompute": TP, "wavelet_precompute_torch": TT, "construct": CO, "filters": F, "samples": SM}


def close(a, b):
    """equal results (to rounding), with the same structure"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str):
        return a is b or a == b
    a, b = arr(a), arr(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.max(np.abs(b))))))


def prop_C20(case):
    """omitted options are the documented defaults; documented positions and names of the parameters"""
    import ast
    import signatures
    q = case["fn"]
    mod, name = q.split(".")
    fn = getattr(MODS[mod], name)
    a = ast.parse("def f(%s): pass" % signatures.SIGNATURES[q]).body[0].args
    names = [x.arg for x in a.args]
    dflt = {n: ast.literal_eval(d) for n, d in zip(names[len(names) - len(a.defaults):], a.defaults)}
    full = dict(L=8, N=1, J_min=0, lam=2.0, spin=0, spin0=0, sampling="mw", nside=None, reality=False, J_max=None, forward=False, nospherical=False,
                using_torch=False, scattering=False, j=2, quad_iters=300, t=0.6, a=0.55, b=1.0, n=40,
                multiresolution=dflt.get("multiresolution", True))
    if case["mode"] == "positions":
        full.update(L=9, N=3, J_min=1, lam=2.0 if case.get("lam2") else 3.0, spin=0 if "flm" in names or mod == "wavelet_c" else 1, spin0=0, sampling="dh", multiresolution=True, forward=True, quad_iters=150, J_max=2, j=1)
        if name in ("L0_j", "k_lam", "k_lam_jax", "tiling_integrand", "part_scaling_fn"):
            full["lam"] = 3.0
    else:
        for k, v in dflt.items():
            if k not in ("filters", "precomps"):
                full[k] = v
    kf3 = name == "synthesis" and mod.startswith("wavelet_precompute")
    if kf3:
        full["N"] = 3            # the default N=1 raises here (known finding KF3)
    c = Cfg(dict(full, multi=full["multiresolution"], fam={"base": "looped" if "looped" in name else "base", "wavelet": "jax", "wavelet_c": "c", "wavelet_precompute": "pre",
                                                            "wavelet_precompute_torch": "torch"}.get(mod, "base"), seed=5))
    if mod not in ("base", "wavelet", "wavelet_c", "wavelet_precompute", "wavelet_precompute_torch"):
        c.multi = full["multiresolution"]
    if "f" in names or "flm" in names:
        flm, f = signal(c)
        full.update(f=to_fam(c, f), flm=to_fam(c, flm))
    if "f_wav" in names or "f_w" in names:
        _, _, fw, fs = random_coeffs(c)
        full.update(f_w=fw, f_s=fs, f_wav=to_fam(c, fw), f_scal=to_fam(c, fs))
    if "filters" in names:
        fl = fam_filters(c)
        full["filters"] = fl[0] if "flm" in names else fl
    if "precomps" in names:
        full["precomps"] = kernels(c, "f_wav" in names) if c.fam != "jax" or case["mode"] == "positions" else None
    full = {k: full[k] for k in names}
    fresh = lambda v: copy.deepcopy(v) if isinstance(v, (np.ndarray, list)) else v

    def call(pos, kw):
        try:
            return True, fn(*[fresh(v) for v in pos], **{k: fresh(v) for k, v in kw.items()})
        except Exception as e:
            return False, "%s: %s" % (type(e).__name__, str(e).strip()[:160])
    out = []
    req = [full[n] for n in names if n not in dflt]
    keep = {k: full[k] for k in ("filters", "precomps") if k in full and full[k] is not None}
    if kf3:
        keep["N"] = 3
    want = call([], full)
    if not want[0]:
        return ["%s(%s) with documented keyword arguments raises %s" % (q, ", ".join(names), want[1])]
    if case["mode"] == "defaults":
        got = call(req, keep)
        if not (got[0] and close(got[1], want[1])):
            out.append("%s with options omitted differs from the call with the documented defaults %s%s" % (q, {k: v for k, v in dflt.items()}, "" if got[0] else ": " + got[1]))
        for k in dflt:
            if k in keep:
                continue
            got = call([], {x: v for x, v in full.items() if x != k})
            if not (got[0] and close(got[1], want[1])):
                out.append("%s with %s omitted differs from %s=%r%s" % (q, k, k, dflt[k], "" if got[0] else ": " + got[1]))
    else:
        got = call([full[n] for n in names], {})
        if not (got[0] and close(got[1], want[1])):
            out.append("%s called by position (%s) differs from the call by keyword%s" % (q, ", ".join(names), "" if got[0] else ": " + got[1]))
    return out


def digests(case, tables, names):
    import hashlib
    d = {}
    def h(x):
        if isinstance(x, list):
            return [h(y) for y in x]
        if isinstance(x, np.ndarray):
            return [list(x.shape), np.round(np.abs(x).astype(float).ravel(), 9).tolist()[:400], float(np.round(np.sum(np.real(x)), 8))]
        return str(x)
    order = range(len(tables))
    if case.get("reverse"):
        order = reversed(list(order))
    for i in order:
        for n in names:
            fn, mk = tables[i][n]
            try:
                d["%s#%d" % (n, i)] = h(frozen(fn(*mk())))
            except Known:
                d["%s#%d" % (n, i)] = "known"
    return d


PROPS = {k[5:]: v for k, v in list(globals().items()) if k.startswith("prop_C")}
