"""Assumed contracts of the s2fft entry points (dependency, not verified here).

Signatures are read from the installed s2fft source on every run; the contracts are
  SHTF  forward spherical harmonic transform     f -> f_lm
  SHTI  inverse                                  f_lm -> f
  WIGF  forward Wigner transform                 f -> f_lmn
  WIGI  inverse                                  f_lmn -> f
as uninterpreted linear operators identified by bandlimit, directionality, spin and sampling.
Assumed: coefficients vanish outside |m|,|n| <= l and l >= |spin|, l >= L_lower; with the
reality flag the forward results are the Hermitian completion of the non-negative orders,
and the inverse operators read the non-negative orders only; kernels are valid for
exactly the parameters they were generated for.
"""
import ast, os, glob
import z3
from .terms import *
from .values import *

S2 = (glob.glob("/opt/venv/lib/python3*/site-packages/s2fft") + ["/nonexistent"])[0]
MODS = {"s2fft", "s2fft.base_transforms", "s2fft.base_transforms.spherical", "s2fft.base_transforms.wigner",
        "s2fft.transforms", "s2fft.transforms.spherical", "s2fft.transforms.wigner", "s2fft.transforms.c_backend_spherical",
        "s2fft.wigner", "s2fft.precompute_transforms", "s2fft.precompute_transforms.spherical",
        "s2fft.precompute_transforms.wigner", "s2fft.precompute_transforms.construct", "s2fft.recursions",
        "s2fft.recursions.price_mcewen", "s2fft.sampling", "s2fft.sampling.s2_samples", "s2fft.sampling.so3_samples"}
ALIAS = {"s2fft.wigner.": "s2fft.transforms.wigner."}
FLAT = {"forward_jax": "transforms.spherical", "inverse_jax": "transforms.spherical", "forward_numpy": "transforms.spherical",
        "inverse_numpy": "transforms.spherical", "forward": "transforms.spherical", "inverse": "transforms.spherical",
        "generate_precomputes_wigner_jax": "recursions.price_mcewen", "generate_precomputes_wigner": "recursions.price_mcewen"}
SAMP = ["mw", "mwss", "dh", "gl"]
_sig = {}


def signature(mod, fn):
    if mod not in _sig:
        p = os.path.join(S2, *mod.split(".")) + ".py"
        _sig[mod] = {n.name: n.args for n in ast.parse(open(p).read()).body if isinstance(n, ast.FunctionDef)}
    return _sig[mod].get(fn)


def sname(x):
    return x.name if isinstance(x, SymStr) else x.lower() if isinstance(x, str) else None


def NT(L, samp):
    return z3.Function("NT_" + sname(samp), Int, Int)(zint(L))


def NP(L, samp):
    return z3.Function("NP_" + sname(samp), Int, Int)(zint(L))


for _s in SAMP + ["sampling"]:
    FACTS["NT_" + _s] = lambda a, s=_s: [z3.Implies(a[0] >= 1, NT(a[0], s) >= 1)]
    FACTS["NP_" + _s] = lambda a, s=_s: [z3.Implies(a[0] >= 1, NP(a[0], s) >= 1)]


def absz(x):
    v = as_py_int(x)
    if v is not None:
        return z3.IntVal(abs(v))
    return z3.If(x >= 0, x, -x)


def ge_abs(l, x):
    """l >= |x|"""
    l, x = zint(l), zint(x)
    return z3.And(l >= x, l >= -x)


# --- canonical operators, shared by the code and by the specifications
def sht_coeff(op, spin, reality, l, m):
    l, m = zint(l), zint(m)
    a = A("SHTF", (l, m), False, op)
    if reality:
        a = ite(m >= 0, a, mul(sgn(m), conj(A("SHTF", (l, simp(-m)), False, op))))
    return ite(z3.And(ge_abs(l, spin), ge_abs(l, m)), a, ZERO)


def sht_fwd(lib, f, L, spin, samp, reality):
    op = Op("SHTF", dict(L=zint(L), spin=zint(spin), samp=sname(samp)), f)
    Lz = zint(L)
    return Arr(lib, (L, simp(2 * Lz - 1)), "c", lambda l, q: sht_coeff(op, spin, reality, l, simp(zint(q) - Lz + 1)))


def herm2(e, Lz, reality):
    """Hermitian completion of non-negative orders of a [l, m] array (raw column index)."""
    if not reality:
        return lambda l, q: lift(e(l, q))
    def f(l, q):
        m = simp(zint(q) - Lz + 1)
        return ite(m >= 0, lift(e(l, q)), mul(sgn(m), conj(lift(e(l, simp(Lz - 1 - m))))))
    return f


def sht_inv(lib, flm, L, spin, samp, reality):
    Lz = zint(L)
    h = herm2(flm.elem, Lz, reality)

    def inp(l, q):
        m = simp(zint(q) - Lz + 1)
        return ite(z3.And(ge_abs(l, spin), ge_abs(l, m)), h(l, q), ZERO)
    op = Op("SHTI", dict(L=Lz, spin=zint(spin), samp=sname(samp)), Arr("np", (L, simp(2 * Lz - 1)), "c", inp))
    return Arr(lib, (NT(L, samp), NP(L, samp)), "c", lambda t, p: A("SHTI", (zint(t), zint(p)), False, op))


def wig_coeff(op, reality, n, l, m):
    n, l, m = zint(n), zint(l), zint(m)
    a = A("WIGF", (n, l, m), False, op)
    if reality:
        b = mul(sgn(simp(m + n)), conj(A("WIGF", (simp(-n), l, simp(-m)), False, op)))
        a = ite(z3.Or(n > 0, z3.And(n == 0, m >= 0)), a, b)
    return ite(z3.And(ge_abs(l, n), ge_abs(l, m)), a, ZERO)


def wig_fwd(lib, f, L, N, L_lower, samp, reality):
    op = Op("WIGF", dict(L=zint(L), N=zint(N), samp=sname(samp)), f)
    Lz, Nz = zint(L), zint(N)
    return Arr(lib, (simp(2 * Nz - 1), L, simp(2 * Lz - 1)), "c",
               lambda k, l, q: ite(zint(l) >= zint(L_lower), wig_coeff(op, reality, simp(zint(k) - Nz + 1), l, simp(zint(q) - Lz + 1)), ZERO))


def wig_inv(lib, flmn, L, N, L_lower, samp, reality):
    Lz, Nz = zint(L), zint(N)
    e = flmn.elem

    def inp(k, l, q):
        n, m = simp(zint(k) - Nz + 1), simp(zint(q) - Lz + 1)
        v = lift(e(k, l, q))
        if reality:
            w = mul(sgn(simp(m + n)), conj(lift(e(simp(Nz - 1 - n), l, simp(Lz - 1 - m)))))
            v = ite(z3.Or(n > 0, z3.And(n == 0, m >= 0)), v, w)
        return ite(z3.And(zint(l) >= zint(L_lower), ge_abs(l, n), ge_abs(l, m)), v, ZERO)
    op = Op("WIGI", dict(L=Lz, N=Nz, samp=sname(samp)), Arr("np", (simp(2 * Nz - 1), L, simp(2 * Lz - 1)), "c", inp))
    return Arr(lib, (simp(2 * Nz - 1), NT(L, samp), NP(L, samp)), "c",
               lambda g, t, p: A("WIGI", (zint(g), zint(t), zint(p)), False, op))


class S2FFT:
    def __init__(s, m):
        s.m = m
        s.used = set()

    def is_module(s, n):
        return n in MODS

    def bind(s, mod, fn, args, kw):
        a = signature(mod, fn)
        if a is None:
            raise Unsupported("unknown s2fft function %s.%s" % (mod, fn))
        names = [x.arg for x in a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            raise Unsupported("too many arguments for s2fft " + fn)
        for k, v in kw.items():
            if k not in names or k in env:
                raise Unsupported("bad keyword %s of s2fft %s" % (k, fn))
            env[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env.setdefault(n, ast.literal_eval(d))
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s of s2fft %s" % (n, fn))
        return env

    def flag(s, v):
        r = as_py_bool(zbool(v)) if is_boolv(v) else None
        if r is None:
            raise Unsupported("symbolic flag passed to s2fft")
        return r

    def shape(s, st, arr, want, what):
        if not isinstance(arr, Arr):
            raise Unsupported("s2fft argument %r" % (arr,))
        if len(arr.shape) != len(want):
            s.m.oblige(st, what + ": rank", z3.BoolVal(False))
            raise Unsupported("rank of s2fft argument")
        for i, (x, y) in enumerate(zip(arr.shape, want)):
            if not same_z(x, y, []):
                s.m.oblige(st, what + ": shape axis %d" % i, zint(x) == zint(y))

    def kern(s, st, k, kind, **want):
        if k is None:
            return
        if not isinstance(k, Kern):
            raise Unsupported("kernel argument %r" % (k,))
        if k.kind != kind:
            s.m.oblige(st, "kernel kind %s used as %s" % (k.kind, kind), z3.BoolVal(False))
            return
        for n, v in want.items():
            w = k.params[n]
            if isinstance(v, (str, SymStr)) or isinstance(w, (str, SymStr)):
                if sname(v) != sname(w):
                    s.m.oblige(st, "kernel generated for this " + n, z3.BoolVal(False))
            elif isinstance(v, bool) or isinstance(w, bool):
                if v is not w:
                    s.m.oblige(st, "kernel generated for this " + n, z3.BoolVal(False))
            else:
                s.m.oblige(st, "kernel generated for this " + n, zint(v) == zint(w))

    def call(s, st, name, args, kw):
        m = s.m
        for a, b in ALIAS.items():
            if name.startswith(a):
                name = b + name[len(a):]
        parts = name.split(".")
        mod, fn = ".".join(parts[1:-1]), parts[-1]
        if mod == "":
            mod = FLAT.get(fn)
            if mod is None:
                raise Unsupported("s2fft." + fn)
        env = s.bind(mod, fn, args, kw)
        env = {k: (m.deref(st, v) if isinstance(v, (Ref, ERef, VRef)) else v) for k, v in env.items()}
        s.used.add(mod + "." + fn)
        g = env.get
        if g("nside") not in (None, True, False) and "nside" in env:
            raise Unsupported("nside")
        if mod.startswith("sampling"):
            if fn == "f_shape" and mod.endswith("s2_samples"):
                return (NT(env["L"], env["sampling"]), NP(env["L"], env["sampling"]))
            if fn == "f_shape":
                return (simp(2 * zint(env["N"]) - 1), NT(env["L"], env["sampling"]), NP(env["L"], env["sampling"]))
            if fn == "flm_shape":
                return (env["L"], simp(2 * zint(env["L"]) - 1))
            if fn == "flmn_shape":
                return (simp(2 * zint(env["N"]) - 1), env["L"], simp(2 * zint(env["L"]) - 1))
            if fn == "ntheta":
                return NT(env["L"], env["sampling"])
            if fn == "nphi_equiang":
                return NP(env["L"], env["sampling"])
            raise Unsupported("s2fft." + mod + "." + fn)
        if fn in ("wigner_kernel_jax", "wigner_kernel"):
            if g("mode") != "auto" or g("using_torch"):
                raise Unsupported("kernel mode")
            return Kern("WIG", dict(L=env["L"], N=env["N"], reality=s.flag(env["reality"]), sampling=env["sampling"], forward=s.flag(env["forward"])),
                        "jnp" if fn.endswith("jax") else "np")
        if fn in ("spin_spherical_kernel_jax", "spin_spherical_kernel"):
            if g("recursion") != "auto" or g("using_torch"):
                raise Unsupported("kernel recursion")
            return Kern("SHT", dict(L=env["L"], spin=env["spin"], reality=s.flag(env["reality"]), sampling=env["sampling"], forward=s.flag(env["forward"])),
                        "jnp" if fn.endswith("jax") else "np")
        if fn in ("generate_precomputes_wigner_jax", "generate_precomputes_wigner"):
            return Kern("REC", dict(L=env["L"], N=env["N"], reality=s.flag(env["reality"]), sampling=env["sampling"], forward=s.flag(env["forward"]),
                                    L_lower=env["L_lower"]), "jnp" if fn.endswith("jax") else "np")
        if g("spmd") or g("iter") or g("use_healpix_custom_primitive"):
            raise Unsupported("s2fft option")
        if g("method", "jax") != "jax" and not (g("method") == "numpy"):
            raise Unsupported("s2fft method")
        if "ssht_sampling" in env:
            k = as_py_int(env["ssht_sampling"])
            if k is None:
                raise Unsupported("ssht sampling")
            env["sampling"] = SAMP[k]
        L, samp, reality = env["L"], env["sampling"], s.flag(env["reality"])
        if not is_int(L):
            raise Unsupported("bandlimit %r" % (L,))
        if "wigner" in mod:
            if not is_int(env["N"]):
                raise Unsupported("directionality %r" % (env["N"],))
        lib = "np" if mod.startswith("base") or fn.endswith("numpy") else "torch" if fn.endswith("torch") else "jnp"
        low = g("L_lower", 0)
        fwd = fn.startswith(("forward", "ssht_forward"))
        if "wigner" in mod:
            N = env["N"]
            x = env["f"] if fwd else env["flmn"]
            if "kernel" not in env:
                m.oblige(st, "Wigner transform: 0 <= L_lower < L", z3.And(zint(low) >= 0, zint(low) < zint(L)))
            if "kernel" in env:
                s.kern(st, env["kernel"], "WIG", L=L, N=N, reality=reality, sampling=samp, forward=fwd)
            elif g("precomps") is not None:
                s.kern(st, env["precomps"], "REC", L=L, N=N, reality=reality, sampling=samp, forward=fwd, L_lower=low)
            if fwd:
                s.shape(st, x, (simp(2 * zint(N) - 1), NT(L, samp), NP(L, samp)), "Wigner transform input")
                s.lib_ok(st, x, lib)
                return m.wrap(st, wig_fwd(lib, x, L, N, low, samp, reality))
            s.shape(st, x, (simp(2 * zint(N) - 1), L, simp(2 * zint(L) - 1)), "Wigner coefficient input")
            s.lib_ok(st, x, lib)
            return m.wrap(st, wig_inv(lib, x, L, N, low, samp, reality))
        spin = g("spin", 0)
        x = env["f"] if fwd else env["flm"]
        if "kernel" in env:
            s.kern(st, env["kernel"], "SHT", L=L, spin=spin, reality=reality, sampling=samp, forward=fwd)
        elif g("precomps") is not None:
            raise Unsupported("spherical recursion precomputes")
        if low != 0:
            raise Unsupported("spherical L_lower")
        if fwd:
            s.shape(st, x, (NT(L, samp), NP(L, samp)), "spherical transform input")
            s.lib_ok(st, x, lib)
            return m.wrap(st, sht_fwd(lib, x, L, spin, samp, reality))
        s.shape(st, x, (L, simp(2 * zint(L) - 1)), "spherical coefficient input")
        s.lib_ok(st, x, lib)
        return m.wrap(st, sht_inv(lib, x, L, spin, samp, reality))

    def lib_ok(s, st, x, lib):
        if lib == "torch" and x.lib != "torch":
            s.m.oblige(st, "torch transform receives a tensor", z3.BoolVal(False))
        if x.dtype in ("f4", "c8"):
            s.m.oblige(st, "transform input is double precision", z3.BoolVal(False))
