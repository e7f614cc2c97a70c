"""Models (assumed contracts) of the Python builtins, NumPy, jax.numpy, Torch and math."""
import ast
import z3
import math
from fractions import Fraction
from .terms import *
from .values import *
from .interp import Lst, PLst, State, jdtype, Machine, ORDER

MODULES = {"numpy": "np", "jax.numpy": "jnp", "torch": "torch", "math": "math", "jax": "jax", "functools": "functools",
           "scipy": "scipy", "scipy.special": "scipy.special", "jax.scipy": "jax.scipy", "jax.scipy.special": "jax.scipy.special",
           "typing": "typing", "s2fft": "s2fft", "jax.lax": "lax", "numpy.linalg": "np.linalg"}
DT = {"float64": "f", "complex128": "c", "float32": "f4", "complex64": "c8", "int64": "i", "bool_": "b", "bool": "b",
      "float": "f", "complex": "c", "int": "i", "double": "f", "cdouble": "c", "float_": "f", "complex_": "c"}


def eqz(a, b):
    return zint(a) == zint(b)


def is_lit(x, v):
    return as_py_int(x) == v


class Library:
    def __init__(s, m, ext=None):
        s.m = m
        m.lib = s
        s.ext = ext

    def is_module(s, n):
        if n in MODULES:
            return True
        return n.startswith("s2fft") and s.ext is not None and s.ext.is_module(n)

    def canon(s, n):
        for k in sorted(MODULES, key=len, reverse=True):
            if n.startswith(k + "."):
                return MODULES[k] + n[len(k):]
        return n

    # ------------------------------------------------------------ scalars
    def nonzero(s, t):
        t = lift(t)
        if isinstance(t, C):
            return t.v != 0
        r = to_real(t) if is_real(t) else None
        if r is not None:
            return r != 0
        if isinstance(t, A) and t.op is None:
            return nz_guard(t.name, t.args)
        if isinstance(t, Mul):
            gs = [s.nonzero(x) for x in t.ts]
            return z3.And(*[zbool(g) for g in gs])
        if isinstance(t, Pow):
            return s.nonzero(t.b)
        if isinstance(t, Ite):
            return z3.If(t.g, zbool(s.nonzero(t.a)), zbool(s.nonzero(t.b)))
        if isinstance(t, Sym):
            return True
        raise Unsupported("non-zero test of %r" % (t,))

    def sc_binop(s, st, op, a, b):
        """Scalars."""
        if is_boolv(a) and is_boolv(b) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isinstance(op, ast.BitAnd):
                return z3.And(zbool(a), zbool(b))
            if isinstance(op, ast.BitOr):
                return z3.Or(zbool(a), zbool(b))
            return z3.Xor(zbool(a), zbool(b))
        if is_boolv(a):
            a = int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_boolv(b):
            b = int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_int(a) and is_int(b):
            pa, pb = as_py_int(a), as_py_int(b)
            both = pa is not None and pb is not None
            if isinstance(op, ast.Add):
                return pa + pb if both else zint(a) + zint(b)
            if isinstance(op, ast.Sub):
                return pa - pb if both else zint(a) - zint(b)
            if isinstance(op, ast.Mult):
                return pa * pb if both else zint(a) * zint(b)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if both and pb != 0:
                    return pa // pb if isinstance(op, ast.FloorDiv) else pa % pb
                if pb is not None and pb > 0 or prove(st.pc, zint(b) > 0):
                    return zint(a) / zint(b) if isinstance(op, ast.FloorDiv) else zint(a) % zint(b)
                raise Unsupported("division by a possibly non-positive integer")
            if isinstance(op, ast.Div):
                if both and pb != 0:
                    return lift(Fraction(pa, pb))
                return mul(lift(a), power(lift(b), -1))
            if isinstance(op, ast.Pow):
                return s.ipow(st, a, b)
            if isinstance(op, ast.BitAnd) and pb == 1:
                return zint(a) % 2
            if isinstance(op, ast.LShift) and pa is not None:
                return s.ipow(st, 2, b) if pa == 1 else None
            raise Unsupported("integer operator " + type(op).__name__)
        a_, b_ = a, b
        if isinstance(op, ast.Pow):
            return s.tpow(st, a, b)
        a, b = lift(a), lift(b)
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return add(a, mul(C(-1), b))
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return mul(a, power(b, -1))
        raise Unsupported("operator " + type(op).__name__)

    def ipow(s, st, a, b):
        pa, pb = as_py_int(a), as_py_int(b)
        if pb is not None:
            if pa is not None:
                return pa ** pb if pb >= 0 else lift(Fraction(1, pa ** (-pb)))
            if 0 <= pb <= 8:
                r = z3.IntVal(1)
                for _ in range(pb):
                    r = r * a
                return simp(r)
        if pa == -1:
            return Ite(zint(b) % 2 == 0, ONE, C(-1))
        if pa is not None and pa > 1:
            if prove(st.pc, zint(b) < 0) or not prove(st.pc, zint(b) >= 0):
                return s.cpow(pa, b)      # a float, or unknown
            return PInt(POW(z3.RealVal(pa), zint(b)), pa, zint(b))
        raise Unsupported("integer power")

    def cpow(s, base, e):
        """base ** e for an integer constant base > 1: the exponent keeps no constant and no leading minus"""
        e = simp(zint(e))
        parts = list(e.children()) if z3.is_add(e) else [e]
        c = sum(x.as_long() for x in parts if z3.is_int_value(x))
        rest = [x for x in parts if not z3.is_int_value(x)]
        if not rest:
            return C(Fraction(base) ** c)

        def neg(x):
            return z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() < 0
        r = rest[0] if len(rest) == 1 else z3.Sum(*rest)
        if all(neg(x) for x in rest):
            t = power(Z(POW(z3.RealVal(base), simp(-r))), Fraction(-1))
        else:
            t = Z(POW(z3.RealVal(base), r))
        return t if c == 0 else mul(C(Fraction(base) ** c), t)

    def fits_int64(s, st, *vals):
        """A Python integer that meets a JAX or Torch array becomes a 64-bit one."""
        if not any(isinstance(v, Arr) and v.lib != "np" for v in vals):
            return
        for v in vals:
            if isinstance(v, PInt):
                k = 1
                while v.base ** (k + 1) < 2 ** 63:
                    k += 1
                s.m.oblige(st, "integer fits 64 bits (%d ** n)" % v.base, v.exp <= (k if v.base > 1 else v.exp))
            elif is_int(v) and as_py_int(v) is not None:
                if not -2 ** 63 <= as_py_int(v) < 2 ** 63:
                    s.m.oblige(st, "integer fits 64 bits", z3.BoolVal(False))

    def tpow(s, st, a, b):
        bv = None
        if is_int(b):
            bv = as_py_int(b)
        elif isinstance(b, C):
            bv = b.v
        elif isinstance(b, float):
            bv = Fraction(b)
        if bv is not None:
            if isinstance(a, Z) and not a.e.is_int():
                if Fraction(bv).denominator == 1:
                    if int(bv) == 1:
                        return a
                    return Z(POW(a.e, z3.IntVal(int(bv)))) if s.is_param(a.e) else power(a, Fraction(bv))
            a = lift(a)
            if isinstance(a, C) and Fraction(bv).denominator == 1 and a.v != 0:
                return C(a.v ** int(bv))
            if Fraction(bv).denominator in (1, 2):
                return power(a, Fraction(bv))
            raise Unsupported("power")
        if is_int(b):
            a = lift(a)
            if isinstance(a, C) and a.v == -1:
                return Ite(zint(b) % 2 == 0, ONE, C(-1))
            if isinstance(a, C) and a.v == int(a.v) and a.v > 1:
                return s.cpow(int(a.v), b)
            r = to_real(a)
            if r is not None and (isinstance(a, Z) or isinstance(a, C)):
                return Z(POW(r, zint(b)))
        raise Unsupported("power with symbolic exponent")

    def is_param(s, e):
        return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def sc_compare(s, st, op, a, b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            raise NeedConcrete((a if isinstance(a, SymStr) else b).name)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a is None or b is None):
            r = a is None and b is None
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if isinstance(a, (str, Lib)) or isinstance(b, (str, Lib)):
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            raise Unsupported("string comparison")
        if is_boolv(a) and is_boolv(b) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            e = zbool(a) == zbool(b)
            r = as_py_bool(e)
            e = e if r is None else r
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return (not e) if isinstance(e, bool) else z3.Not(e)
            return e
        if is_boolv(a):
            a = int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_boolv(b):
            b = int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_int(a) and is_int(b):
            pa, pb = as_py_int(a), as_py_int(b)
            if pa is None or pb is None:
                a, b = zint(a), zint(b)
            else:
                a, b = pa, pb
        else:
            ta, tb = lift(a), lift(b)
            d = ta - tb
            if isinstance(ta, C) and isinstance(tb, C):
                a, b = ta.v, tb.v
            elif isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(tb, C) and tb.v == 0:
                r = s.nonzero(ta)
                if isinstance(op, ast.Eq):
                    return (not r) if isinstance(r, bool) else z3.Not(r)
                return r
            else:
                a, b = to_real(ta), to_real(tb)
                if a is None or b is None:
                    # sign of a root product
                    raise Unsupported("comparison of %r and %r" % (ta, tb))
        if isinstance(op, ast.Lt):
            return a < b
        if isinstance(op, ast.LtE):
            return a <= b
        if isinstance(op, ast.Gt):
            return a > b
        if isinstance(op, ast.GtE):
            return a >= b
        if isinstance(op, (ast.Eq, ast.Is)):
            return a == b
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return a != b
        raise Unsupported("comparison " + type(op).__name__)

    # ------------------------------------------------------------ generic operators
    def binop(s, st, op, a, b):
        m = s.m
        av, bv = m.deref(st, a), m.deref(st, b)
        if isinstance(av, Arr) or isinstance(bv, Arr):
            for x in (av, bv):
                if isinstance(x, (Lst, tuple)):
                    raise Unsupported("array arithmetic with a list")
            if isinstance(op, ast.MatMult):
                return s.matmul(st, av, bv)
            s.fits_int64(st, av, bv)
            return m.wrap(st, s.ew(st, lambda x, y: s.sc_binop(st, op, x, y), [av, bv], s.op_dtype(op, av, bv)))
        if isinstance(av, Lst) and isinstance(op, ast.Add) and isinstance(bv, Lst):
            if av.items is not None and bv.items is not None:
                return m.alloc(st, Lst(items=av.items + bv.items))
            na, nb = zint(av.length()), zint(bv.length())
            return m.alloc(st, Lst(n=simp(na + nb), get=lambda k: m.merge_val(st, st, st, zint(k) < na, m.list_get(st, av, k), m.list_get(st, bv, zint(k) - na))))
        if isinstance(av, Lst) and isinstance(op, ast.Mult) and is_int(bv) and av.items is not None and len(av.items) == 1:
            x = av.items[0]
            if isinstance(x, (Ref, ERef, VRef)):
                raise Unsupported("aliased list elements")
            return m.alloc(st, Lst(n=zint(bv), get=lambda k: x))
        if isinstance(av, tuple) and isinstance(bv, tuple) and isinstance(op, ast.Add):
            return av + bv
        if isinstance(av, (str, OpaqueStr, SymStr)) or isinstance(bv, (str, OpaqueStr, SymStr)):
            return OpaqueStr()
        if not is_num(av) or not is_num(bv):
            raise Unsupported("operator on %r, %r" % (av, bv))
        return s.sc_binop(st, op, av, bv)

    def sdt(s, x):
        if isinstance(x, Arr):
            return x.dtype
        if is_boolv(x):
            return "b"
        if is_int(x):
            return "i"
        if isinstance(x, PInt):
            return "i"
        t = lift(x)
        return "f" if is_real(t) else "c"

    def op_dtype(s, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and s.sdt(a) == "b" and s.sdt(b) == "b":
            return "b"
        lib = a.lib if isinstance(a, Arr) else b.lib
        da, db = s.sdt(a), s.sdt(b)
        # python scalars are weakly typed
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            arr, sc = (a, b) if isinstance(a, Arr) else (b, a)
            ds = s.sdt(sc)
            cat = {"b": 0, "i": 1, "f": 2, "f4": 2, "c": 3, "c8": 3, "any": 3}
            if arr.dtype == "any":
                d = "any"
            elif cat[ds] <= cat[arr.dtype]:
                d = arr.dtype
            elif cat[ds] == 2:
                d = "f4" if lib == "torch" else "f"
            elif cat[ds] == 3:
                d = "c8" if arr.dtype == "f4" or (lib == "torch" and cat[arr.dtype] < 2) else "c"
            else:
                d = "i"
        else:
            d = jdtype(da, db)
        if isinstance(op, ast.Div) and d in ("b", "i"):
            d = "f4" if lib == "torch" else "f"
        return d

    def compare(s, st, op, a, b):
        m = s.m
        if isinstance(op, (ast.In, ast.NotIn)):
            bv = m.deref(st, b)
            if m.is_dict(bv):
                if bv[0] == "__rdict__":
                    r = z3.And(zint(a) >= bv[1], zint(a) < bv[1] + bv[2])
                    return r if isinstance(op, ast.In) else z3.Not(r)
                bv = bv[1]
            elif isinstance(bv, tuple) and bv and isinstance(bv[0], str) and bv[0] == "__range__" and is_lit(bv[3], 1):
                r = z3.And(zint(a) >= zint(bv[1]), zint(a) < zint(bv[2]))
                return r if isinstance(op, ast.In) else z3.Not(r)
            items = bv.items if isinstance(bv, Lst) else bv if isinstance(bv, tuple) else None
            if items is None:
                if isinstance(bv, str) and isinstance(a, str):
                    r = a in bv
                    return r if isinstance(op, ast.In) else not r
                raise Unsupported("membership test")
            cs = [s.compare(st, ast.Eq(), a, x) for x in items]
            if all(isinstance(c, bool) for c in cs):
                r = any(cs)
            else:
                r = z3.Or(*[zbool(c) for c in cs])
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            r = a is None and b is None
            return r if isinstance(op, ast.Is) else not r
        av, bv = m.deref(st, a), m.deref(st, b)
        if isinstance(av, Arr) or isinstance(bv, Arr):
            if av is None or bv is None:
                return isinstance(op, ast.NotEq)
            return m.wrap(st, s.ew(st, lambda x, y: s.sc_compare(st, op, x, y), [av, bv], "b"))
        if isinstance(av, (Lst, Kern, tuple)) and bv is None or isinstance(bv, (Lst, Kern, tuple)) and av is None:
            return isinstance(op, (ast.NotEq, ast.IsNot))
        if isinstance(av, tuple) and isinstance(bv, tuple):
            if len(av) != len(bv):
                r = False
            else:
                cs = [s.compare(st, ast.Eq(), x, y) for x, y in zip(av, bv)]
                r = True
                for c in cs:
                    if isinstance(c, bool):
                        if not c:
                            r = False
                            break
                    else:
                        r = c if r is True else z3.And(r, c)
            if isinstance(op, ast.NotEq):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        return s.sc_compare(st, op, av, bv)

    def invert(s, st, v):
        v = s.m.deref(st, v)
        if isinstance(v, Arr) and v.dtype == "b":
            return s.m.wrap(st, s.ew(st, lambda x: z3.Not(zbool(x)), [v], "b"))
        raise Unsupported("invert")

    # ------------------------------------------------------------ arrays
    def bshape(s, st, shapes):
        n = max(len(x) for x in shapes)
        out = []
        for d in range(n):
            cur = None
            for sh in shapes:
                k = d - (n - len(sh))
                if k < 0:
                    continue
                x = sh[k]
                if is_lit(x, 1):
                    if cur is None:
                        cur = 1
                    continue
                if cur is None or is_lit(cur, 1):
                    cur = x
                elif not same_z(cur, x, st.pc):
                    s.m.oblige(st, "broadcast shapes agree", eqz(cur, x))
            out.append(cur)
        return tuple(out)

    def baccess(s, arr, idx):
        k = len(idx) - len(arr.shape)
        return arr.elem(*[0 if is_lit(d, 1) else i for d, i in zip(arr.shape, idx[k:])])

    def ew(s, st, f, args, dtype, lib=None):
        arrs = [a for a in args if isinstance(a, Arr)]
        libs = [a.lib for a in arrs]
        lib = lib or ("jnp" if "jnp" in libs else "torch" if "torch" in libs else "np")
        shp = s.bshape(st, [a.shape for a in arrs])
        args = list(args)
        if dtype in ("f4", "c8"):
            s.m.oblige(st, "no loss of precision (single precision intermediate)", z3.BoolVal(False))

        def elem(*idx):
            return f(*[s.baccess(a, idx) if isinstance(a, Arr) else a for a in args])
        return Arr(lib, shp, dtype, elem)

    def check_inplace(s, st, cur, new):
        if len(cur.shape) != len(new.shape):
            s.m.oblige(st, "in-place operation keeps the shape", z3.BoolVal(False))
            raise Unsupported("in-place broadcast")
        for x, y in zip(cur.shape, new.shape):
            if not same_z(x, y, st.pc):
                s.m.oblige(st, "in-place operation keeps the shape", eqz(x, y))
        if ORDER[new.dtype] > ORDER[cur.dtype]:
            s.m.oblige(st, "in-place operation keeps the dtype (%s into %s)" % (new.dtype, cur.dtype), z3.BoolVal(False))

    def norm_spec(s, st, arr, raw):
        raw = list(raw)
        nd = len(arr.shape)
        used = sum(1 for x in raw if x is not None and x is not Ellipsis)
        if any(x is Ellipsis for x in raw):
            k = [i for i, x in enumerate(raw) if x is Ellipsis][0]
            raw = raw[:k] + [("__slice__", None, None, None)] * (nd - used) + raw[k + 1:]
        out = []
        ax = 0
        for x in raw:
            if x is None:
                out.append(("new",))
                continue
            x = s.m.deref(st, x) if isinstance(x, (Ref, ERef, VRef)) else x
            if isinstance(x, Arr) and x.dtype == "b":
                if len(raw) == 1 and len(x.shape) == nd:
                    return [("mask", x)]
                if len(x.shape) != 1 or ax >= nd:
                    raise Unsupported("boolean mask on several axes")
                if not same_z(x.shape[0], arr.shape[ax], st.pc):
                    s.m.oblige(st, "mask has the size of the axis", eqz(x.shape[0], arr.shape[ax]))
                out.append(("bmask", x))
                ax += 1
                continue
            if ax >= nd:
                raise Unsupported("too many indices")
            d = arr.shape[ax]
            if isinstance(x, tuple) and x and x[0] == "__slice__":
                out.append(s.norm_slice(st, x, d))
            elif is_int(x):
                out.append(("int", s.m.norm_index(st, x, d, "array axis %d" % ax)))
            elif isinstance(x, Arr) and x.dtype == "i" and len(x.shape) == 1:
                out.append(("fancy", x))
            else:
                raise Unsupported("index %r" % (x,))
            ax += 1
        while ax < nd:
            out.append(("slice", 0, arr.shape[ax], 1))
            ax += 1
        if sum(1 for x in out if x[0] == "fancy") > 1:
            raise Unsupported("advanced indexing")
        return out

    def norm_slice(s, st, x, d):
        _, a, b, c = x
        step = 1 if c is None else as_py_int(c)
        if step is None or step == 0:
            raise Unsupported("slice step")
        dz = zint(d)

        def clamp(v, dflt):
            if v is None:
                return dflt
            if not is_int(v):
                raise Unsupported("slice bound %r" % (v,))
            vz = zint(v)
            if prove(st.pc, vz >= 0):
                r = vz
            elif prove(st.pc, vz < 0):
                r = simp(vz + dz)
                if not prove(st.pc, r >= 0):
                    r = z3.If(r < 0, z3.IntVal(0), r)
                return r
            else:
                r = z3.If(vz < 0, z3.If(vz + dz < 0, z3.IntVal(0), vz + dz), vz)
            if not prove(st.pc, r <= dz):
                r = z3.If(r > dz, dz, r)
            return r
        if step < 0:
            if a is None and b is None:
                if step != -1:
                    raise Unsupported("negative slice step")
                return ("slice", simp(dz - 1), d, -1)
            raise Unsupported("negative slice step")
        lo = clamp(a, z3.IntVal(0))
        hi = clamp(b, dz)
        if not prove(st.pc, hi >= lo):
            hi = z3.If(hi < lo, lo, hi)
        n = simp(hi - lo) if step == 1 else (hi - lo + (step - 1)) / step
        n = as_py_int(n) if as_py_int(n) is not None else n
        lo = as_py_int(lo) if as_py_int(lo) is not None else lo
        return ("slice", lo, n, step)

    def index(s, arr, spec, st):
        if any(x[0] in ("mask", "bmask") for x in spec):
            raise Unsupported("boolean mask read")
        shape = []
        for x in spec:
            if x[0] == "slice":
                shape.append(x[2])
            elif x[0] == "new":
                shape.append(1)
            elif x[0] == "fancy":
                shape.append(x[1].shape[0])
        nd = len(arr.shape)
        e = arr.elem
        full = list(spec)
        k = sum(1 for x in full if x[0] != "new")
        for j in range(k, nd):
            full.append(("slice", 0, arr.shape[j], 1))
            shape.append(arr.shape[j])

        def elem(*idx):
            idx = list(idx)
            src = []
            for x in full:
                if x[0] == "int":
                    src.append(x[1])
                elif x[0] == "new":
                    idx.pop(0)
                elif x[0] == "fancy":
                    src.append(x[1].elem(idx.pop(0)))
                else:
                    q = idx.pop(0)
                    lo, stp = x[1], x[3]
                    if is_lit(lo, 0) and stp == 1:
                        src.append(q)
                    else:
                        src.append(simp(zint(lo) + zint(q) * stp))
            return e(*src)
        if not shape:
            return elem()
        if any(x[0] == "fancy" for x in spec):
            d = [i for i, x in enumerate([y for y in full if y[0] != "new"]) if x[0] == "fancy"][0]
            fx = [x for x in full if x[0] == "fancy"][0][1]
            p = fresh_int("p")
            v = zint(fx.elem(p))
            hy = st.pc + [p >= 0, p < zint(fx.shape[0])]
            if not prove(hy, z3.And(v >= 0, v < zint(arr.shape[d]))):
                raise Unsupported("fancy index range")
        return Arr(arr.lib, shape, arr.dtype, elem)

    def store(s, arr, spec, val, st, m):
        """New array with arr[spec] = val."""
        e = arr.elem
        if isinstance(val, (Lst, tuple)):
            raise Unsupported("store of a list")
        dv = s.sdt(val)
        if ORDER[dv] > ORDER[arr.dtype] and not (dv in ("f",) and arr.dtype == "c8"):
            if dv == "c" and arr.dtype == "f" or arr.dtype in ("f4", "c8", "i", "b"):
                m.oblige(st, "store keeps the value (%s into %s array)" % (dv, arr.dtype), z3.BoolVal(False))
        conv = (lambda x: x) if arr.dtype in ("b", "i") else lift
        if len(spec) == 1 and spec[0][0] == "mask":
            mk = spec[0][1]
            if isinstance(val, Arr):
                raise Unsupported("masked array store")
            return Arr(arr.lib, arr.shape, arr.dtype, lambda *i: s.m.merge_scalar(zbool(mk.elem(*i)), conv(val), e(*i)))
        if any(x[0] == "fancy" for x in spec):
            raise Unsupported("store through an index array")
        tshape = [x[2] for x in spec if x[0] == "slice"]
        if any(x[0] == "new" for x in spec):
            raise Unsupported("store with newaxis")
        if any(x[0] == "bmask" for x in spec) and isinstance(val, Arr):
            raise Unsupported("masked array store")
        if isinstance(val, Arr):
            vs = list(val.shape)
            while len(vs) > len(tshape):
                if not is_lit(vs[0], 1):
                    raise Unsupported("store rank")
                raise Unsupported("store rank")
            off = len(tshape) - len(vs)
            for x, y in zip(tshape[off:], vs):
                if is_lit(y, 1):
                    continue
                if not same_z(x, y, st.pc):
                    m.oblige(st, "stored shape matches the target slice", eqz(x, y))

        def elem(*idx):
            conds = []
            sub = []
            for i, x in zip(idx, spec):
                i = zint(i)
                if x[0] == "int":
                    conds.append(i == zint(x[1]))
                elif x[0] == "bmask":
                    conds.append(zbool(x[1].elem(i)))
                else:
                    lo, n, stp = zint(x[1]), zint(x[2]), x[3]
                    if stp == 1:
                        q = simp(i - lo)
                        conds += [i >= lo, i < lo + n]
                    elif stp > 1:
                        q = (i - lo) / stp
                        conds += [i >= lo, (i - lo) % stp == 0, (i - lo) / stp < n]
                    else:
                        q = lo - i
                        conds += [q >= 0, q < n]
                    sub.append(q)
            v = s.baccess(val, tuple(sub)) if isinstance(val, Arr) else val
            c = z3.And(*conds) if len(conds) != 1 else conds[0]
            return s.m.merge_scalar(c, conv(v), e(*idx))
        return Arr(arr.lib, arr.shape, arr.dtype, elem)

    def einsum(s, st, lib, spec, ops):
        spec = spec.replace(" ", "")
        if "..." in spec:
            raise Unsupported("einsum ellipsis")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            letters = ins.replace(",", "")
            out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        ins = ins.split(",")
        if len(ins) != len(ops):
            raise Unsupported("einsum operands")
        dims = {}
        for t, o in zip(ins, ops):
            if not isinstance(o, Arr):
                raise Unsupported("einsum of a scalar")
            if len(t) != len(o.shape):
                s.m.oblige(st, "einsum rank", z3.BoolVal(False))
                raise Unsupported("einsum rank")
            for c, d in zip(t, o.shape):
                if c in dims:
                    if not same_z(dims[c], d, st.pc):
                        s.m.oblige(st, "einsum dimensions agree (%s)" % c, eqz(dims[c], d))
                else:
                    dims[c] = d
        con = [c for c in dims if c not in out]
        dt = ops[0].dtype
        for o in ops[1:]:
            dt = jdtype(dt, o.dtype)
        if dt in ("f4", "c8"):
            s.m.oblige(st, "no loss of precision (single precision intermediate)", z3.BoolVal(False))

        def elem(*idx):
            ix = dict(zip(out, idx))
            vs = []
            for c in con:
                ix[c] = fresh_int("e")
                vs.append((ix[c], dims[c]))
            t = ONE
            for tt, o in zip(ins, ops):
                t = mul(t, lift(o.elem(*[ix[c] for c in tt])))
            for v, d in reversed(vs):
                t = mk_sum(v, z3.And(v >= 0, v < zint(d)), t)
            return t
        return Arr(lib, [dims[c] for c in out], dt, elem)

    def matmul(s, st, a, b):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            raise Unsupported("matmul")
        if len(a.shape) == 2 and len(b.shape) == 2:
            return s.m.wrap(st, s.einsum(st, a.lib, "ij,jk->ik", [a, b]))
        if len(a.shape) == 2 and len(b.shape) == 1:
            return s.m.wrap(st, s.einsum(st, a.lib, "ij,j->i", [a, b]))
        if len(a.shape) == 1 and len(b.shape) == 1:
            return s.einsum(st, a.lib, "i,i->", [a, b])
        raise Unsupported("matmul")

    # ------------------------------------------------------------ attributes
    def attr(s, st, v, a):
        m = s.m
        val = m.deref(st, v)
        if isinstance(v, Lib):
            return Lib(v.name + "." + a)
        if isinstance(val, Arr):
            if a == "shape":
                return tuple(val.shape)
            if a == "ndim":
                return len(val.shape)
            if a == "size" and val.lib != "torch":
                r = z3.IntVal(1)
                for d in val.shape:
                    r = r * zint(d)
                return simp(r)
            if a == "real":
                return m.wrap(st, s.real_part(st, val))
            if a == "T":
                return s.transpose(st, val, None)
            if a == "dtype":
                return Lib("dtype." + val.dtype)
            if a == "at" and val.lib == "jnp":
                return Bound("at", val)
            return Bound("arr." + a, v)
        if isinstance(v, Bound) and v.kind == "at_idx":
            return Bound("at_" + a, v.obj, v.extra)
        if isinstance(val, Lst):
            return Bound("list." + a, v)
        if isinstance(val, (str, SymStr)):
            return Bound("str." + a, val)
        if isinstance(val, T) or is_z3(val) or isinstance(val, (int, float)):
            if a == "real":
                if is_real(lift(val)):
                    return val
                raise Unsupported("real part")
            return Bound("num." + a, val)
        if isinstance(v, Bound):
            return Bound(v.kind + "." + a, v.obj, v.extra)
        if m.is_dict(val):
            return Bound("dict." + a, val)
        if isinstance(val, tuple):
            return Bound("tuple." + a, val)
        raise Unsupported("attribute %s of %r" % (a, val))

    def real_part(s, st, v):
        if v.dtype in ("f", "f4", "i"):
            return v if v.lib == "jnp" else Arr(v.lib, v.shape, v.dtype, v.elem, tag="maybe_view", src=v.mem())
        e = v.elem
        nm = v.lib

        def elem(*i):
            t = lift(e(*i))
            if is_real(t):
                return t
            if isinstance(t, A) and t.op is None and not t.cj and t.name in s.m.realinputs:
                return t
            return mul(C(Fraction(1, 2)), add(t, conj(t)))
        return Arr(v.lib, v.shape, "f" if v.dtype in ("c", "any") else "f4", elem, **({} if v.lib == "jnp" else dict(tag="maybe_view", src=v.mem())))

    def transpose(s, st, v, axes):
        n = len(v.shape)
        ax = list(range(n))[::-1] if axes is None else axes
        e = v.elem
        inv = [ax.index(i) for i in range(n)]
        return s.m.wrap(st, Arr(v.lib, [v.shape[a] for a in ax], v.dtype, lambda *i: e(*[i[inv[k]] for k in range(n)]), tag="maybe_view", src=v.mem()))

    # ------------------------------------------------------------ methods
    def list_append(s, st, ref, x):
        m = s.m
        l = m.deref(st, ref)
        m.freeze(x)
        v = m.deep(st, x)
        if isinstance(x, Ref) and isinstance(ref, Ref) and isinstance(v, Arr) and v.lib != "jnp" and any(x.id <= n and ref.id <= n for n in m.loop0):
            v = v.dup(v.mem() | {"shared"})
        if isinstance(l, PLst):
            m.write(st, ref, PLst(l.base, l.app + [v], l.stores, l.rec))
        elif l.items is not None:
            m.write(st, ref, Lst(items=l.items + [v]))
        else:
            n = zint(l.n)
            m.write(st, ref, Lst(n=simp(n + 1), get=lambda k: m.merge_val(st, st, st, zint(k) < n, m.list_get(st, l, k), v)))

    def method(s, st, b, args, kw):
        m = s.m
        k = b.kind
        if k == "tuple.index":
            k = "list.index"
        if k.startswith("list."):
            if k == "list.append":
                s.list_append(st, b.obj, args[0])
                return None
            if k == "list.index":
                l = m.deref(st, b.obj)
                l = Lst(items=list(l)) if isinstance(l, tuple) else l
                if l.items is not None:
                    for i, x in enumerate(l.items):
                        c = s.compare(st, ast.Eq(), x, args[0])
                        if c is True:
                            return i
                        if c is not False:
                            raise Unsupported("list.index")
                    m.raise_(st, "ValueError")
                    raise Unsupported("value not in list")
            if k == "list.copy":
                return m.alloc(st, m.deref(st, b.obj))
            if k == "list.extend":
                x = m.deref(st, args[0])
                if isinstance(x, tuple) or (isinstance(x, Lst) and x.items is not None):
                    for y in (x if isinstance(x, tuple) else x.items):
                        s.list_append(st, b.obj, y)
                    return None
            raise Unsupported(k)
        if k.startswith("dict."):
            d = b.obj
            if k == "dict.get":
                return m.dict_get(st, d, args[0], (args[1] if len(args) > 1 else None,))
            if d[0] == "__dict__":
                if k == "dict.items":
                    return tuple(zip(d[1], d[2]))
                if k in ("dict.keys", "dict.values"):
                    return d[1] if k == "dict.keys" else d[2]
            else:
                keys = ("__range__", d[1], simp(d[1] + d[2]), 1)
                if k == "dict.items":
                    return ("__zip__", keys, d[3])
                if k in ("dict.keys", "dict.values"):
                    return keys if k == "dict.keys" else d[3]
            raise Unsupported(k)
        if k.startswith("str."):
            if isinstance(b.obj, SymStr):
                if k == "str.lower":
                    raise NeedConcrete(b.obj.name)
                raise Unsupported(k)
            if k in ("str.lower", "str.upper", "str.strip") and not args:
                return getattr(b.obj, k[4:])()
            if k == "str.format":
                return OpaqueStr()
            if k in ("str.startswith", "str.endswith") and isinstance(args[0], str):
                return getattr(b.obj, k[4:])(args[0])
            raise Unsupported(k)
        if k.startswith("num."):
            if k in ("num.conj", "num.conjugate"):
                return conj(lift(b.obj))
            raise Unsupported(k)
        if k in ("at_set", "at_add", "at_multiply"):
            arr, spec = b.obj, b.extra
            val = m.deref(st, args[0])
            if isinstance(val, (Lst, tuple)):
                raise Unsupported("at[] with a list")
            if k != "at_set":
                cur = s.index(arr, spec, st)
                val = m.deref(st, s.binop(st, ast.Add() if k == "at_add" else ast.Mult(), cur, val))
            return s.store(arr, spec, val, st, m)
        if k == "at_get":
            return s.index(b.obj, b.extra, st)
        if k.startswith("arr."):
            v = m.deref(st, b.obj)
            name = k[4:]
            lib = v.lib
            if name in ("conj", "conjugate"):
                return s.call(st, lib + ".conj", [b.obj], {})
            if name == "copy" or name == "clone" or name == "detach" or name == "contiguous":
                return m.wrap(st, Arr(lib, v.shape, v.dtype, v.elem))
            if name == "reshape":
                sh = args[0] if len(args) == 1 and isinstance(m.deref(st, args[0]), tuple) else tuple(args)
                return s.reshape(st, v, sh)
            if name in ("sum", "prod", "dot", "transpose", "abs", "max", "min", "roll", "numpy", "astype", "to", "item", "all", "any", "flatten", "ravel", "type", "squeeze"):
                if name == "dot":
                    return s.matmul(st, v, m.deref(st, args[0]))
                if name == "transpose":
                    ax = [as_py_int(x) for x in (args[0] if args and isinstance(args[0], tuple) else args)]
                    return s.transpose(st, v, ax or None)
                if name in ("astype", "to", "type"):
                    d = s.dtype_of(args[0] if args else kw.get("dtype"))
                    if d is None:
                        raise Unsupported("astype")
                    return s.cast(st, v, d)
                if name == "numpy":
                    return m.wrap(st, Arr("np", v.shape, v.dtype, v.elem, tag="maybe_view", src=v.mem()))
                return s.call(st, lib + "." + name, [b.obj] + list(args), kw)
            raise Unsupported("array method " + name)
        raise Unsupported("method " + k)

    def cast(s, st, v, d):
        if ORDER[d] < ORDER[v.dtype]:
            if d in ("f4", "c8"):
                s.m.oblige(st, "no loss of precision (cast to %s)" % d, z3.BoolVal(False))
                d2 = d
            else:
                raise Unsupported("narrowing cast")
        e = v.elem
        if d in ("f4", "c8"):
            s.m.oblige(st, "no loss of precision (cast to %s)" % d, z3.BoolVal(False))
        return s.m.wrap(st, Arr(v.lib, v.shape, d, (lambda *i: lift(e(*i))) if d not in ("i", "b") else e))

    def reshape(s, st, v, sh):
        sh = [as_py_int(x) if as_py_int(x) is not None else x for x in sh]
        src = [x for x in v.shape if not is_lit(x, 1)]
        dst = [x for x in sh if not is_lit(x, 1)]
        if -1 in [x for x in dst if isinstance(x, int)]:
            k = dst.index(-1)
            if len(dst) != len(src):
                raise Unsupported("reshape")
            dst = list(dst)
            dst[k] = src[k]
            sh = [src[k] if is_lit(x, -1) else x for x in sh]
        if len(src) != len(dst):
            raise Unsupported("reshape")
        for a, b in zip(src, dst):
            if not same_z(a, b, st.pc):
                s.m.oblige(st, "reshape keeps the size", eqz(a, b))
        e = v.elem
        vsh = v.shape
        osh = tuple(sh)

        def elem(*idx):
            real = [i for i, d in zip(idx, osh) if not is_lit(d, 1)]
            out = []
            for d in vsh:
                out.append(0 if is_lit(d, 1) else real.pop(0))
            return e(*out)
        return s.m.wrap(st, Arr(v.lib, osh, v.dtype, elem, tag="maybe_view", src=v.mem()))

    def dtype_of(s, d):
        if d is None:
            return None
        if isinstance(d, Lib):
            n = d.name.split(".")[-1]
            if d.name.startswith("dtype."):
                return n
            return DT.get(n)
        if isinstance(d, str):
            return DT.get(d)
        return None

    def list_slice(s, st, l, k):
        _, a, b, c = k
        if isinstance(l, PLst):
            raise Unsupported("slice of list under modification")
        if l.items is not None:
            aa, bb, cc = [as_py_int(x) if x is not None else None for x in (a, b, c)]
            if (a is None or aa is not None) and (b is None or bb is not None) and (c is None or cc is not None):
                return Lst(items=l.items[slice(aa, bb, cc)])
        sp = s.norm_slice(st, k, l.length())
        lo, n, stp = sp[1], sp[2], sp[3]
        return Lst(n=n, get=lambda q: s.m.list_get(st, l, simp(zint(lo) + zint(q) * stp)))

    # ------------------------------------------------------------ library functions
    def call(s, st, name, args, kw):
        m = s.m
        if s.ext is not None and name.startswith("s2fft"):
            return s.ext.call(st, name, args, kw)
        if name.startswith("builtins."):
            return s.builtin(st, name[9:], args, kw)
        if name in ("functools.partial",):
            return Partial(args[0], args[1:], kw)
        if name in ("jax.jit", "jnp.asarray_jit"):
            return args[0]
        if name.startswith("math."):
            return s.mathfn(st, name[5:], args, kw)
        if name.startswith(("np.", "jnp.", "torch.", "scipy.special.", "jax.scipy.special.")):
            lib, f = name.rsplit(".", 1)
            h = getattr(s, "f_" + f, None)
            if lib in ("np", "jnp", "torch", "scipy.special", "jax.scipy.special") and h is not None:
                kw = {k: v for k, v in kw.items() if k not in ("optimize", "precision", "device")}
                return h(st, {"scipy.special": "np", "jax.scipy.special": "jnp"}.get(lib, lib), list(args), kw)
        raise Unsupported("library function " + name)

    def builtin(s, st, f, args, kw):
        m = s.m
        if f == "range":
            a = list(args)
            for x in a:
                if not is_int(x):
                    raise Unsupported("range of non-integer")
            if len(a) == 1:
                return ("__range__", 0, a[0], 1)
            if len(a) == 2:
                return ("__range__", a[0], a[1], 1)
            return ("__range__", a[0], a[1], a[2])
        if f == "enumerate":
            start = args[1] if len(args) > 1 else kw.get("start", 0)
            return ("__enum__", args[0], start)
        if f == "zip":
            return ("__zip__",) + tuple(args)
        if f == "reversed":
            x = args[0]
            if isinstance(x, tuple) and x and x[0] == "__range__" and is_lit(x[3], 1):
                return ("__range__", s.sc_binop(st, ast.Sub(), x[2], 1), s.sc_binop(st, ast.Sub(), x[1], 1), -1)
            raise Unsupported("reversed")
        if f == "dict":
            if args:
                raise Unsupported("dict()")
            return ("__dict__", tuple(kw), tuple(m.frz(v) for v in kw.values()))
        if f == "len":
            v = m.deref(st, args[0])
            if m.is_dict(v):
                return len(v[1]) if v[0] == "__dict__" else v[2]
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("__"):
                if v[0] == "__range__":
                    sp = m.iter_spec(v, st)
                    if sp[0] == "items":
                        return len(sp[1])
                    return sp[2] if prove(st.pc, sp[2] >= 0) else z3.If(sp[2] > 0, sp[2], z3.IntVal(0))
                raise Unsupported("len of " + v[0])
            if isinstance(v, Arr):
                return v.shape[0]
            if isinstance(v, Lst):
                return m.list_len(st, v)
            if isinstance(v, (tuple, str)):
                return len(v)
            raise Unsupported("len")
        if f in ("min", "max"):
            xs = list(args)
            if len(xs) == 1:
                v = m.deref(st, xs[0])
                xs = list(v) if isinstance(v, tuple) else v.items if isinstance(v, Lst) and v.items is not None else None
                if xs is None:
                    raise Unsupported("min/max")
            r = xs[0]
            for x in xs[1:]:
                c = s.sc_compare(st, ast.Lt(), x, r) if f == "min" else s.sc_compare(st, ast.Gt(), x, r)
                if isinstance(c, bool):
                    r = x if c else r
                elif prove(st.pc, c):
                    r = x
                elif prove(st.pc, z3.Not(c)):
                    pass
                else:
                    r = m.merge_scalar(c, x, r)
            return r
        if f == "abs":
            return s.absval(st, args[0])
        if f == "int":
            v = args[0]
            if is_int(v):
                return v
            if is_boolv(v):
                return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return s.to_int(st, v, "trunc")
        if f in ("float", "complex"):
            v = m.deref(st, args[0])
            return lift(v)
        if f == "bool":
            return m.truth(st, args[0])
        if f == "str":
            return OpaqueStr()
        if f == "print":
            return None
        if f == "tuple":
            v = m.deref(st, args[0])
            if isinstance(v, tuple):
                return v
            if isinstance(v, Lst) and v.items is not None:
                return tuple(v.items)
            raise Unsupported("tuple()")
        if f == "list":
            if not args:
                return m.alloc(st, Lst(items=[]))
            sp = m.iter_spec(args[0], st)
            if sp[0] == "items":
                return m.alloc(st, Lst(items=list(sp[1])))
            _, lo, cnt, stp, g = sp
            nn = cnt if prove(st.pc, cnt >= 0) else z3.If(cnt > 0, cnt, z3.IntVal(0))
            return m.alloc(st, Lst(n=nn, get=lambda k: m.deep(st, g(simp(lo + zint(k) * stp)))))
        if f == "sum":
            sp = m.iter_spec(args[0], st)
            if sp[0] == "items":
                r = 0
                for x in sp[1]:
                    r = s.binop(st, ast.Add(), r, x)
                return r
            raise Unsupported("sum of symbolic sequence")
        if f == "isinstance":
            raise Unsupported("isinstance")
        if f == "pow":
            return s.binop(st, ast.Pow(), args[0], args[1])
        if f == "divmod":
            return (s.binop(st, ast.FloorDiv(), args[0], args[1]), s.binop(st, ast.Mod(), args[0], args[1]))
        if f == "slice":
            a = list(args)
            if len(a) == 1:
                a = [None, a[0]]
            while len(a) < 3:
                a.append(None)
            return ("__slice__",) + tuple(a)
        if f in ("all", "any"):
            sp = m.iter_spec(args[0], st)
            if sp[0] == "items":
                cs = [zbool(m.truth(st, x)) for x in sp[1]]
                return z3.And(*cs) if f == "all" else z3.Or(*cs)
            _, lo, cnt, stp, g = sp
            i = z3.Int("ai!%d" % next(_cnt3))
            v = g(i)
            if not is_boolv(v):
                raise Unsupported("all/any")
            rng = z3.And(i >= lo, i < lo + cnt) if stp == 1 else None
            if rng is None:
                raise Unsupported("all/any")
            return z3.ForAll([i], z3.Implies(rng, zbool(v))) if f == "all" else z3.Exists([i], z3.And(rng, zbool(v)))
        raise Unsupported("builtin " + f)

    def absval(s, st, v):
        m = s.m
        v = m.deref(st, v)
        if isinstance(v, Arr):
            return m.wrap(st, s.ew(st, lambda x: s.absval(st, x), [v], "f" if v.dtype in ("c", "any") else "f4" if v.dtype == "c8" else v.dtype))
        if isinstance(v, int) and not isinstance(v, bool):
            return abs(v)
        if is_int(v):
            if prove(st.pc, v >= 0):
                return v
            if prove(st.pc, v <= 0):
                return -v
            return z3.If(v >= 0, v, -v)
        t = lift(v)
        if isinstance(t, C):
            return C(abs(t.v))
        r = to_real(t) if is_real(t) else None
        if r is not None:
            return Ite(r >= 0, t, mul(C(-1), t))
        if isinstance(t, Ite):
            return ite(t.g, s.absval(st, t.a), s.absval(st, t.b))
        return Fn("abs", (t,))

    def to_int(s, st, v, mode):
        """Integer of a real term: mode floor, ceil, trunc."""
        t = lift(v)
        if isinstance(t, Ite):
            return z3.If(t.g, zint(s.to_int(st, t.a, mode)), zint(s.to_int(st, t.b, mode)))
        if isinstance(t, C):
            import math
            return {"floor": math.floor, "ceil": math.ceil, "trunc": int}[mode](t.v)
        # log ratio: c = ceil(log x / log b)  <=>  b^(c-1) < x <= b^c
        lr = log_ratio(t)
        if lr is not None:
            x, b = lr
            c = fresh_int("clog")
            if mode == "ceil":
                st.pc.append(z3.And(POW(b, c - 1) < x, x <= POW(b, c)))
            else:
                if mode == "trunc" and not prove(st.pc, x >= 1):
                    raise Unsupported("truncation of a logarithm")
                st.pc.append(z3.And(POW(b, c) <= x, x < POW(b, c + 1)))
            s.m.assumed.add("log_lam(x) in (c-1, c] iff lam^(c-1) < x <= lam^c (real logarithm)")
            key = (mode, x.get_id(), b.get_id())
            old = s.m.__dict__.setdefault("logcache", {}).get(key)
            if old is not None:
                st.pc.append(c == old[0])
            else:
                s.m.logcache[key] = (c, x, b)
            return c
        r = to_real(t)
        if r is None:
            raise Unsupported("integer part of %r" % (t,))
        r = simp(r)
        if r.decl().kind() == z3.Z3_OP_TO_REAL:
            return r.children()[0]
        if mode == "ceil":
            return CEIL(r)
        if mode == "floor":
            return FLOOR(r)
        if prove(st.pc, r >= 0):
            return FLOOR(r)
        return z3.If(r >= 0, FLOOR(r), CEIL(r))

    def mathfn(s, st, f, args, kw):
        if f == "pi":
            return PI
        a = args[0] if args else None
        if f in ("ceil", "floor", "trunc"):
            if is_int(a):
                return a
            return s.to_int(st, a, f)
        if f == "log":
            if len(args) == 2:
                return mul(s.log(st, a), power(s.log(st, args[1]), -1))
            return s.log(st, a)
        if f == "log2":
            return mul(s.log(st, a), power(s.log(st, 2), -1))
        if f == "sqrt":
            return sqrt(lift(a))
        if f == "exp":
            return s.exp1(lift(a))
        if f == "pow":
            return s.sc_binop(st, ast.Pow(), lift(a), args[1])
        if f == "fabs":
            return s.absval(st, lift(a))
        if f in ("comb",):
            return s.binom(st, a, args[1])
        if f == "factorial":
            n = a
            k = fresh_int("b")
            return mk_prod(k, 1, zint(n) + 1, lift(k))
        raise Unsupported("math." + f)

    def log(s, st, x):
        r = to_real(lift(x))
        if r is None:
            raise Unsupported("log")
        return Fn("log", (lift(x),))

    def exp1(s, t):
        if isinstance(t, Ite):
            return ite(t.g, s.exp1(t.a), s.exp1(t.b))
        return Fn("exp", (t,))

    def vec(s, st, f, x, dtype=None, lib=None):
        m = s.m
        v = m.deref(st, x)
        if isinstance(v, Arr):
            d = dtype or v.dtype
            if d in ("i", "b") and dtype is None:
                d = "f4" if v.lib == "torch" else "f"
            return m.wrap(st, s.ew(st, f, [v], d, lib))
        if isinstance(v, (Lst, tuple)):
            raise Unsupported("vector function of a list")
        return f(v)

    # -- constructors
    def shape_arg(s, st, x):
        x = s.m.deref(st, x)
        if isinstance(x, tuple):
            return x
        if isinstance(x, Lst) and x.items is not None:
            return tuple(x.items)
        if is_int(x):
            return (x,)
        raise Unsupported("shape %r" % (x,))

    def const_arr(s, st, lib, args, kw, val):
        sh = args[0] if args else kw.get("shape", kw.get("size"))
        if lib == "torch" and len(args) > 1 and all(is_int(x) for x in args):
            sh = tuple(args)
        elif len(args) > 1:
            kw = dict(kw, dtype=args[1])
        d = s.dtype_of(kw.get("dtype")) if kw.get("dtype") is not None else ("f4" if lib == "torch" else "f")
        if kw.get("dtype") is not None and d is None:
            raise Unsupported("dtype")
        sh = s.shape_arg(st, sh)
        for x in sh:
            if not prove(st.pc, zint(x) >= 0):
                s.m.oblige(st, "array size is non-negative", zint(x) >= 0)
        v = lift(val) if d not in ("i", "b") else (val if d == "i" else bool(val))
        return s.m.wrap(st, Arr(lib, sh, d, lambda *i: v))

    def f_zeros(s, st, lib, args, kw):
        return s.const_arr(st, lib, args, kw, 0)

    def f_ones(s, st, lib, args, kw):
        return s.const_arr(st, lib, args, kw, 1)

    def f_full(s, st, lib, args, kw):
        v = args[1] if len(args) > 1 else kw.get("fill_value")
        v = s.m.deref(st, v)
        if isinstance(v, Arr):
            raise Unsupported("full of array")
        d = s.dtype_of(kw.get("dtype")) or s.sdt(v)
        if lib == "torch" and kw.get("dtype") is None and d in ("f", "c"):
            d = "f4" if d == "f" else "c8"
        sh = s.shape_arg(st, args[0])
        v = lift(v) if d not in ("i", "b") else v
        return s.m.wrap(st, Arr(lib, sh, d, lambda *i: v))

    def f_empty(s, st, lib, args, kw):
        sh = s.shape_arg(st, args[0])
        if len(args) > 1:
            kw = dict(kw, dtype=args[1])
        d = s.dtype_of(kw.get("dtype")) if kw.get("dtype") is not None else ("f4" if lib == "torch" else "f")
        if d is None or d in ("i", "b"):
            raise Unsupported("empty")
        nm = "garbage!%d" % next(_cnt3)
        return s.m.wrap(st, Arr(lib, sh, d, lambda *i: A(nm, [zint(x) for x in i], d == "f")))

    def like(s, st, lib, args, kw, val):
        v = s.m.deref(st, args[0])
        if not isinstance(v, Arr):
            raise Unsupported("*_like")
        d = s.dtype_of(kw.get("dtype")) or v.dtype
        x = lift(val) if d not in ("i", "b") else val
        return s.m.wrap(st, Arr(lib, v.shape, d, lambda *i: x))

    def f_zeros_like(s, st, lib, args, kw):
        return s.like(st, lib, args, kw, 0)

    def f_ones_like(s, st, lib, args, kw):
        return s.like(st, lib, args, kw, 1)

    def f_arange(s, st, lib, args, kw):
        a = list(args)
        if len(a) == 1:
            lo, hi, stp = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, stp = a[0], a[1], 1
        else:
            lo, hi, stp = a[:3]
        if not all(is_int(x) for x in (lo, hi, stp)):
            raise Unsupported("arange of non-integers")
        stp = as_py_int(stp)
        if stp is None or stp == 0:
            raise Unsupported("arange step")
        lz, hz = zint(lo), zint(hi)
        n = simp(hz - lz) if stp == 1 else ((hz - lz + stp - 1) / stp if stp > 0 else (lz - hz - stp - 1) / (-stp))
        if not prove(st.pc, n >= 0):
            n = z3.If(n > 0, n, z3.IntVal(0))
        n = as_py_int(n) if as_py_int(n) is not None else n
        d = s.dtype_of(kw.get("dtype")) if kw.get("dtype") is not None else "i"
        if d is None:
            raise Unsupported("dtype")
        f = lambda i: simp(lz + zint(i) * stp)
        return s.m.wrap(st, Arr(lib, (n,), d, f if d == "i" else (lambda i: lift(f(i)))))

    def f_linspace(s, st, lib, args, kw):
        a, b = lift(args[0]), lift(args[1])
        n = args[2] if len(args) > 2 else kw.get("num", kw.get("steps", 50))
        if kw.get("endpoint") is False:
            raise Unsupported("linspace endpoint")
        h = (b - a) / (lift(n) - 1)
        return s.m.wrap(st, Arr(lib, (n,), "f", lambda i: a + h * lift(i)))

    def f_array(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        if any(k not in ("dtype", "device", "requires_grad") for k in kw):
            raise Unsupported("array(%s)" % ",".join(kw))
        if isinstance(v, Arr):
            d = s.dtype_of(kw.get("dtype"))
            r = Arr(lib, v.shape, v.dtype, v.elem)
            return s.cast(st, r, d) if d else s.m.wrap(st, r)
        if isinstance(v, Kern):
            return Kern(v.kind, v.params, lib)
        if is_num(v):
            return lift(v) if not is_int(v) else v
        raise Unsupported("array()")

    f_copy = f_array
    f_tensor = f_array

    def f_asarray(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        if isinstance(v, Arr) and v.lib == lib and kw.get("dtype") is None:
            return args[0]
        r = s.f_array(st, lib, args, kw)
        if isinstance(v, Arr) and isinstance(r, Ref):
            a = s.m.deref(st, r)
            a.tag, a.src = "maybe_view", v.mem()
        return r

    def f_from_numpy(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        if isinstance(v, Kern):
            return Kern(v.kind, v.params, "torch")
        if isinstance(v, Arr):
            s.m.freeze(args[0])
            return s.m.wrap(st, Arr("torch", v.shape, v.dtype, v.elem, tag="maybe_view", src=v.mem()))
        raise Unsupported("from_numpy")

    f_as_tensor = f_from_numpy

    # -- elementwise
    def f_sqrt(s, st, lib, args, kw):
        return s.vec(st, lambda x: sqrt(lift(x)), args[0])

    def f_conj(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        return s.vec(st, lambda x: conj(lift(x)), args[0], v.dtype if isinstance(v, Arr) else None)

    f_conjugate = f_conj

    def f_abs(s, st, lib, args, kw):
        return s.absval(st, args[0])

    f_absolute = f_abs

    def f_exp(s, st, lib, args, kw):
        return s.vec(st, lambda x: s.exp1(lift(x)), args[0])

    def f_square(s, st, lib, args, kw):
        return s.binop(st, ast.Mult(), args[0], args[0])

    def f_log(s, st, lib, args, kw):
        return s.vec(st, lambda x: s.log(st, x), args[0])

    def f_log2(s, st, lib, args, kw):
        return s.vec(st, lambda x: mul(s.log(st, x), power(s.log(st, 2), -1)), args[0])

    def f_real(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        if isinstance(v, Arr):
            return s.m.wrap(st, s.real_part(st, v))
        raise Unsupported("real")

    def f_floor(s, st, lib, args, kw):
        def fl(x):
            if is_int(x):
                return x
            b = binom_pattern(lift(x))
            if b is not None:
                return s.binom(st, b[0], b[1])
            return lift(s.to_int(st, x, "floor"))
        return s.vec(st, fl, args[0])

    def f_ceil(s, st, lib, args, kw):
        return s.vec(st, lambda x: x if is_int(x) else lift(s.to_int(st, x, "ceil")), args[0])

    f_rint = None

    def f_round(s, st, lib, args, kw):
        def rd(x):
            b = binom_pattern(add(C(Fraction(1, 2)), lift(x)))
            if b is not None:
                return s.binom(st, b[0], b[1])
            raise Unsupported("round")
        return s.vec(st, rd, args[0])

    f_rint = f_round

    def f_loggamma(s, st, lib, args, kw):
        return s.vec(st, lambda x: Fn("lgamma", (lift(x),)), args[0])

    f_gammaln = f_loggamma

    def f_comb(s, st, lib, args, kw):
        m = s.m
        a, b = m.deref(st, args[0]), m.deref(st, args[1])
        if isinstance(a, Arr) or isinstance(b, Arr):
            return m.wrap(st, s.ew(st, lambda x, y: s.binom(st, x, y), [a, b], "f"))
        return s.binom(st, a, b)

    def binom(s, st, n, k):
        """Binomial coefficient for integers 0<=k<=n; an unspecified number otherwise."""
        n, k = lift(n), lift(k)
        nr, kr = to_real(n), to_real(k)
        if nr is None or kr is None:
            raise Unsupported("binomial arguments")
        (ni, dn), (ki, dk) = int_ratio(nr), int_ratio(kr)
        ok = [ni % dn == 0] if dn > 1 else []
        ok += [ki % dk == 0] if dk > 1 else []
        ni, ki = (ni / dn if dn > 1 else ni), (ki / dk if dk > 1 else ki)
        ok = z3.And(*(ok + [ki >= 0, ki <= ni]))
        s.m.assumed.add("floor(1/2+exp(lgamma(n+1)-lgamma(k+1)-lgamma(n-k+1))) = C(n,k) for integers 0<=k<=n")
        return ite(simp(ok) if not z3.is_true(simp(ok)) else z3.BoolVal(True), ite(simp(2 * ki <= ni), A("BINOM", (simp(ni), simp(ki)), True), A("BINOM", (simp(ni), simp(ni - ki)), True)), A("BINOM_UNSPEC", (simp(nr), simp(kr)), True))

    def f_where(s, st, lib, args, kw):
        m = s.m
        c, a, b = [m.deref(st, x) for x in args]
        dt = s.op_dtype(ast.Add(), a, b) if isinstance(a, Arr) or isinstance(b, Arr) else jdtype(s.sdt(a), s.sdt(b))
        if isinstance(c, Arr):
            if dt in ("i",):
                return m.wrap(st, s.ew(st, lambda x, y, z: m.merge_scalar(zbool(x), y, z), [c, a, b], dt))
            return m.wrap(st, s.ew(st, lambda x, y, z: ite(zbool(x), lift(y), lift(z)), [c, a, b], dt))
        if is_boolv(c):
            if isinstance(a, Arr) or isinstance(b, Arr):
                return m.wrap(st, s.ew(st, lambda y, z: ite(zbool(c), lift(y), lift(z)), [a, b], dt))
            return m.merge_scalar(zbool(c), a, b)
        raise Unsupported("where")

    def minmax(s, st, args, gt):
        m = s.m
        a, b = m.deref(st, args[0]), m.deref(st, args[1])

        def f(x, y):
            c = s.sc_compare(st, ast.Gt() if gt else ast.Lt(), x, y)
            if isinstance(c, bool):
                return x if c else y
            return m.merge_scalar(c, x, y)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return m.wrap(st, s.ew(st, f, [a, b], s.op_dtype(ast.Add(), a, b)))
        return f(a, b)

    def f_maximum(s, st, lib, args, kw):
        return s.minmax(st, args, True)

    def f_minimum(s, st, lib, args, kw):
        return s.minmax(st, args, False)

    def f_clip(s, st, lib, args, kw):
        v = args[0]
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        if lo is not None:
            v = s.minmax(st, [v, lo], True)
        if hi is not None:
            v = s.minmax(st, [v, hi], False)
        return v

    def f_sign(s, st, lib, args, kw):
        v = args[0]
        if is_int(v):
            return z3.If(zint(v) > 0, z3.IntVal(1), z3.If(zint(v) < 0, z3.IntVal(-1), z3.IntVal(0))) if as_py_int(v) is None else (v > 0) - (v < 0)
        raise Unsupported("sign")

    def f_multiply(s, st, lib, args, kw):
        return s.binop(st, ast.Mult(), args[0], args[1])

    def f_add(s, st, lib, args, kw):
        return s.binop(st, ast.Add(), args[0], args[1])

    def f_subtract(s, st, lib, args, kw):
        return s.binop(st, ast.Sub(), args[0], args[1])

    def f_divide(s, st, lib, args, kw):
        return s.binop(st, ast.Div(), args[0], args[1])

    f_true_divide = f_divide

    def f_power(s, st, lib, args, kw):
        return s.binop(st, ast.Pow(), args[0], args[1])

    def f_mod(s, st, lib, args, kw):
        return s.binop(st, ast.Mod(), args[0], args[1])

    f_remainder = f_mod

    def f_logical_and(s, st, lib, args, kw):
        return s.binop(st, ast.BitAnd(), args[0], args[1])

    def f_logical_or(s, st, lib, args, kw):
        return s.binop(st, ast.BitOr(), args[0], args[1])

    def f_logical_not(s, st, lib, args, kw):
        return s.invert(st, args[0])

    # -- shape manipulation, reductions
    def f_einsum(s, st, lib, args, kw):
        if not isinstance(args[0], str):
            raise Unsupported("einsum spec")
        ops = [s.m.deref(st, x) for x in args[1:]]
        return s.m.wrap(st, s.einsum(st, lib, args[0], ops))

    def f_roll(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        k = args[1] if len(args) > 1 else kw.get("shift", kw.get("shifts"))
        ax = args[2] if len(args) > 2 else kw.get("axis", kw.get("dims"))
        ax, k = as_py_int(ax), as_py_int(k)
        if ax is None or k is None:
            raise Unsupported("roll")
        ax %= len(v.shape)
        d = zint(v.shape[ax])
        e = v.elem

        def elem(*i):
            i = list(i)
            q = zint(i[ax]) - k
            if k == -1:
                i[ax] = z3.If(q >= d, q - d, q)
            elif k == 1:
                i[ax] = z3.If(q < 0, q + d, q)
            else:
                i[ax] = q % d
            return e(*i)
        # split into cases so that arguments stay linear

        def elem2(*i):
            if k == -1:
                i1, i2 = list(i), list(i)
                i1[ax], i2[ax] = simp(zint(i[ax]) + 1), 0
                return s.m.merge_scalar(zint(i[ax]) + 1 < d, e(*i1), e(*i2))
            if k == 1:
                i1, i2 = list(i), list(i)
                i1[ax], i2[ax] = simp(zint(i[ax]) - 1), simp(d - 1)
                return s.m.merge_scalar(zint(i[ax]) >= 1, e(*i1), e(*i2))
            return elem(*i)
        return s.m.wrap(st, Arr(v.lib, v.shape, v.dtype, elem2))

    def f_diff(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        n = as_py_int(args[1] if len(args) > 1 else kw.get("n", 1))
        ax = as_py_int(kw.get("axis", kw.get("dim", -1)))
        if n != 1 or ax is None:
            raise Unsupported("diff")
        ax %= len(v.shape)
        sh = list(v.shape)
        sh[ax] = simp(zint(sh[ax]) - 1)
        e = v.elem

        def elem(*i):
            j = list(i)
            j[ax] = simp(zint(i[ax]) + 1)
            return s.sc_binop(st, ast.Sub(), e(*j), e(*i))
        return s.m.wrap(st, Arr(v.lib, sh, v.dtype, elem))

    def f_flip(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dims"))
        if isinstance(ax, tuple):
            ax = ax[0] if len(ax) == 1 else None
        ax = as_py_int(ax) if ax is not None else None
        if ax is None:
            raise Unsupported("flip")
        ax %= len(v.shape)
        e, d = v.elem, zint(v.shape[ax])

        def elem(*i):
            j = list(i)
            j[ax] = simp(d - 1 - zint(i[ax]))
            return e(*j)
        return s.m.wrap(st, Arr(v.lib, v.shape, v.dtype, elem, tag="maybe_view", src=v.mem()))

    def reduce(s, st, lib, args, kw, kind):
        v = s.m.deref(st, args[0])
        if not isinstance(v, Arr):
            raise Unsupported("reduction")
        ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
        if kw.get("keepdims") or kw.get("keepdim"):
            raise Unsupported("keepdims")
        if ax is None:
            if len(v.shape) != 1:
                raise Unsupported("full reduction")
            ax = 0
        ax = as_py_int(ax)
        if ax is None:
            raise Unsupported("axis")
        ax %= len(v.shape)
        e, d = v.elem, v.shape[ax]
        sh = [x for i, x in enumerate(v.shape) if i != ax]
        if kind == "prod" and v.dtype == "i":
            # 64-bit products: indices and degrees stay below 2**31, so two factors fit; a product of
            # more than 20 distinct ones certainly does not (21! > 2**63), which makes a small counter-model
            s.m.oblige(st, "integer product fits 64 bits (more than 20 factors)", zint(d) <= 20)
            s.m.oblige(st, "integer product fits 64 bits", zint(d) <= 2)

        def elem(*i):
            w = fresh_int("r")
            j = list(i)
            j.insert(ax, w)
            b = lift(e(*j))
            if kind == "sum":
                return mk_sum(w, z3.And(w >= 0, w < zint(d)), b)
            return mk_prod(w, 0, d, b)
        if not sh:
            return elem()
        return s.m.wrap(st, Arr(v.lib, sh, "f" if v.dtype in ("i", "b") else v.dtype, elem))

    def f_sum(s, st, lib, args, kw):
        return s.reduce(st, lib, args, kw, "sum")

    def f_prod(s, st, lib, args, kw):
        return s.reduce(st, lib, args, kw, "prod")

    def f_reshape(s, st, lib, args, kw):
        return s.reshape(st, s.m.deref(st, args[0]), s.shape_arg(st, args[1]))

    def f_transpose(s, st, lib, args, kw):
        ax = args[1] if len(args) > 1 else kw.get("axes")
        return s.transpose(st, s.m.deref(st, args[0]), [as_py_int(x) for x in ax] if ax is not None else None)

    def f_outer(s, st, lib, args, kw):
        return s.m.wrap(st, s.einsum(st, lib, "i,j->ij", [s.m.deref(st, x) for x in args[:2]]))

    def f_matmul(s, st, lib, args, kw):
        return s.matmul(st, s.m.deref(st, args[0]), s.m.deref(st, args[1]))

    f_dot = f_matmul

    def f_expand_dims(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        ax = as_py_int(args[1] if len(args) > 1 else kw.get("axis"))
        sh = list(v.shape)
        sh.insert(ax % (len(sh) + 1), 1)
        return s.reshape(st, v, sh)

    def f_shape(s, st, lib, args, kw):
        return tuple(s.m.deref(st, args[0]).shape)

    def f_broadcast_to(s, st, lib, args, kw):
        v = s.m.deref(st, args[0])
        sh = s.shape_arg(st, args[1])
        if not isinstance(v, Arr):
            return s.m.wrap(st, Arr(lib, sh, s.sdt(v), lambda *i: lift(v)))
        s.bshape(st, [v.shape, sh])
        return s.m.wrap(st, Arr(v.lib, sh, v.dtype, lambda *i: s.baccess(v, i), tag="maybe_view", src=v.mem()))


_cnt3 = itertools.count()


def int_ratio(r):
    """(z3 Int a, d) with r == a/d"""
    r = simp(r)
    k = r.decl().kind()
    if z3.is_rational_value(r):
        f = Fraction(r.as_fraction())
        return z3.IntVal(f.numerator), f.denominator
    if k == z3.Z3_OP_TO_REAL:
        return r.children()[0], 1
    if k == z3.Z3_OP_ADD:
        ps = [int_ratio(x) for x in r.children()]
        d = 1
        for _, e in ps:
            d = d * e // math.gcd(d, e)
        return simp(z3.Sum([a * (d // e) for a, e in ps])), d
    if k == z3.Z3_OP_MUL:
        a, d = z3.IntVal(1), 1
        for x in r.children():
            b, e = int_ratio(x)
            a, d = a * b, d * e
        return simp(a), d
    if k == z3.Z3_OP_UMINUS:
        a, d = int_ratio(r.children()[0])
        return simp(-a), d
    if k == z3.Z3_OP_ITE:
        g, x, y = r.children()
        (a, d), (b, e) = int_ratio(x), int_ratio(y)
        if d == e:
            return z3.If(g, a, b), d
    raise Unsupported("not an integer expression: %s" % r)


def log_ratio(t):
    """t == log(x)/log(b) -> (x, b) as z3 reals"""
    fs = t.ts if isinstance(t, Mul) else [t]
    num = [f for f in fs if isinstance(f, Fn) and f.name == "log"]
    den = [f for f in fs if isinstance(f, Pow) and f.e == -1 and isinstance(f.b, Fn) and f.b.name == "log"]
    if len(fs) == 2 and len(num) == 1 and len(den) == 1:
        return simp(to_real(num[0].args[0])), simp(to_real(den[0].b.args[0]))
    return None


def binom_pattern(t):
    """1/2 + exp(lgamma(n+1) - lgamma(k+1) - lgamma(n-k+1)) -> (n, k)"""
    if not isinstance(t, Add) or len(t.ts) != 2:
        return None
    c = [x for x in t.ts if isinstance(x, C)]
    e = [x for x in t.ts if isinstance(x, Fn) and x.name == "exp"]
    if len(c) != 1 or len(e) != 1 or c[0].v != Fraction(1, 2):
        return None
    a = e[0].args[0]
    if not isinstance(a, Add) or len(a.ts) != 3:
        return None
    pos, neg = [], []
    for x in a.ts:
        if isinstance(x, Fn) and x.name == "lgamma":
            pos.append(x.args[0])
        elif isinstance(x, Mul) and len(x.ts) == 2 and isinstance(x.ts[0], C) and x.ts[0].v == -1 and isinstance(x.ts[1], Fn) and x.ts[1].name == "lgamma":
            neg.append(x.ts[1].args[0])
    if len(pos) != 1 or len(neg) != 2:
        return None
    n = pos[0] - 1
    for k1, k2 in (neg, neg[::-1]):
        k = k1 - 1
        try:
            if prove_zero((n - k + 1) - k2, []):
                return n, k
        except (Undecided, Unsupported):
            pass
    return None
