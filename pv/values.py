"""Run-time values of the symbolic executor."""
import z3
from .terms import *


class Arr:
    """Array value: symbolic shape, element function index-tuple -> scalar."""
    __slots__ = ("lib", "shape", "dtype", "elem", "tag", "hid", "src")

    def __init__(s, lib, shape, dtype, elem, tag=None, src=frozenset()):
        s.lib, s.shape, s.dtype, s.elem, s.tag = lib, tuple(shape), dtype, elem, tag
        s.hid = None      # heap cell that holds the array
        s.src = src       # other heap cells whose storage it may share

    def mem(s):
        """heap cells whose storage the array uses"""
        if s.lib == "jnp":
            return frozenset()
        return s.src | {s.hid} if s.hid is not None else s.src

    def dup(s, src=None):
        return Arr(s.lib, s.shape, s.dtype, s.elem, s.tag, s.src if src is None else src)

    @property
    def ndim(s):
        return len(s.shape)

    def __repr__(s):
        return "Arr(%s,%s,%s)" % (s.lib, s.shape, s.dtype)


class Lst:
    """List value: concrete items, or symbolic length with element function."""
    __slots__ = ("items", "n", "get", "log")

    def __init__(s, items=None, n=None, get=None, log=None):
        s.items, s.n, s.get, s.log = items, n, get, log

    def length(s):
        return len(s.items) if s.items is not None else s.n

    def __repr__(s):
        return "Lst(%s)" % (s.items if s.items is not None else s.n)


class PLst(Lst):
    """List being modified inside a symbolic loop iteration."""
    __slots__ = ("base", "app", "stores", "rec")

    def __init__(s, base, app=(), stores=(), rec=None):
        s.items = None
        s.base, s.app, s.stores, s.rec = base, list(app), list(stores), rec if rec is not None else {"reads": []}
        s.n, s.get, s.log = None, None, None


class Ref:
    __slots__ = ("id",)
    def __init__(s, i): s.id = i
    def __repr__(s): return "Ref%d" % s.id


class ERef:
    """Element idx of the list behind ref (elements are mutable arrays)."""
    __slots__ = ("base", "idx")
    def __init__(s, b, i): s.base, s.idx = b, i


class VRef:
    """Basic-slicing view of the array behind ref."""
    __slots__ = ("base", "spec")
    def __init__(s, b, sp): s.base, s.spec = b, sp


class Mod:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return "Mod(%s)" % s.name


class Lib:
    """Library object: function, dtype or constant, by canonical name."""
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return "Lib(%s)" % s.name
    def __eq__(s, o): return isinstance(o, Lib) and o.name == s.name
    def __hash__(s): return hash(s.name)


class UFn:
    """Function of the repository (or nested function / lambda)."""
    __slots__ = ("mod", "node", "closure", "decos")
    def __init__(s, mod, node, closure=None, decos=()):
        s.mod, s.node, s.closure, s.decos = mod, node, closure, decos
    @property
    def qual(s):
        return s.mod.short + "." + getattr(s.node, "name", "<lambda>")


class Partial:
    __slots__ = ("f", "args", "kw")
    def __init__(s, f, a, k): s.f, s.args, s.kw = f, a, k


class Bound:
    """Bound method / indexer helper."""
    __slots__ = ("kind", "obj", "extra")
    def __init__(s, k, o, e=None): s.kind, s.obj, s.extra = k, o, e


class SymStr:
    """Opaque string parameter."""
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return "SymStr(%s)" % s.name


class OpaqueStr:
    pass


class Kern:
    """Precomputed kernel with the parameters it was generated for."""
    __slots__ = ("kind", "params", "lib")
    def __init__(s, kind, params, lib="jnp"): s.kind, s.params, s.lib = kind, dict(params), lib
    def __repr__(s): return "Kern(%s,%s)" % (s.kind, s.params)


class Garbage:
    """Undefined value (e.g. variable possibly unset)."""
    __slots__ = ("why",)
    def __init__(s, w): s.why = w


class NeedConcrete(Exception):
    """A branch depends on an opaque parameter; rerun with concrete values."""
    def __init__(s, name): s.name = name


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.is_int() if is_z3(x) and z3.is_arith(x) else False)


def is_boolv(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def is_num(x):
    return isinstance(x, (int, float, complex, T)) or (is_z3(x))


def zsub(e, pairs):
    return z3.substitute(e, *pairs) if is_z3(e) else e


def ssubst(x, pairs):
    """Substitute in a scalar."""
    if isinstance(x, T):
        return tsubst(x, pairs)
    return zsub(x, pairs)


def vsubst(v, pairs):
    """Substitute z3 constants in a value (refs must have been dereferenced)."""
    if isinstance(v, (T,)) or is_z3(v):
        return ssubst(v, pairs)
    if isinstance(v, Arr):
        e = v.elem
        return Arr(v.lib, [zsub(x, pairs) for x in v.shape], v.dtype,
                   lambda *idx: _sub_elem(e, idx, pairs), v.tag, v.src)
    if isinstance(v, Lst):
        if isinstance(v, PLst):
            raise Unsupported("substitution in a list under modification")
        if v.items is not None:
            return Lst(items=[vsubst(x, pairs) for x in v.items])
        g = v.get
        return Lst(n=zsub(v.n, pairs), get=lambda k: _sub_get(g, k, pairs))
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, Kern):
        return Kern(v.kind, {k: (zsub(x, pairs) if is_z3(x) else x) for k, x in v.params.items()}, v.lib)
    if isinstance(v, (Ref, ERef, VRef)):
        raise Unsupported("substitution through a reference")
    return v


def _protect(idx, pairs):
    """Index expressions may mention the substituted constants: rename them first."""
    vs = [p[0] for p in pairs]
    hit = any(is_z3(i) and any(z_mentions(i, v) for v in vs) for i in idx)
    if not hit:
        return idx, []
    tmp, back = [], []
    for i in idx:
        if is_z3(i):
            t = z3.Const("q!%d" % next(_cnt), i.sort())
            tmp.append(t)
            back.append((t, i))
        else:
            tmp.append(i)
    return tuple(tmp), back


import itertools
_cnt = itertools.count()


def _sub_elem(e, idx, pairs):
    idx2, back = _protect(idx, pairs)
    r = ssubst(e(*idx2), pairs)
    return ssubst(r, back) if back else r


def _sub_get(g, k, pairs):
    (k2,), back = _protect((k,), pairs)
    r = vsubst(g(k2), pairs)
    return vsubst(r, back) if back else r


def mk_sum(v, guard, body):
    """Sum over integer v (fresh bound variable)."""
    w = fresh_int("b")
    return Sum(w, z3.substitute(guard, (v, w)), tsubst(body, [(v, w)]))


def mk_prod(v, lo, hi, body):
    w = fresh_int("b")
    return Prod(w, zint(lo), zint(hi), tsubst(body, [(v, w)]))


# ------------------------------------------------------------ external operators
class Op:
    """Application of a canonical harmonic transform.
    kind in SHTF, SHTI, WIGF, WIGI; params: dict of ints/strings; inp: Arr."""
    __slots__ = ("kind", "params", "inp", "probe")

    def __init__(s, kind, params, inp):
        s.kind, s.params, s.inp = kind, params, inp

    def __repr__(s):
        return "%s%s" % (s.kind, s.params)

    def subst(s, pairs):
        return Op(s.kind, {k: (zsub(v, pairs) if is_z3(v) else v) for k, v in s.params.items()}, vsubst(s.inp, pairs))

    def _probe(s):
        idx = tuple(z3.Int("probe%d" % i) for i in range(len(s.inp.shape)))
        try:
            return s.inp.elem(*idx)
        except (Unsupported, Undecided):
            return None

    def mentions(s, v):
        if any(is_z3(x) and z_mentions(x, v) for x in s.params.values()):
            return True
        if any(is_z3(x) and z_mentions(x, v) for x in s.inp.shape):
            return True
        t = s._probe()
        return True if t is None else (mentions(t, v) if isinstance(t, T) else z_mentions(t, v))

    def index_exprs(s):
        out = []
        t = s._probe()
        if isinstance(t, A):
            for i, a in enumerate(t.args):
                out.append(("in%d" % i, a))
        for k, v in s.params.items():
            if is_z3(v):
                out.append((k, v))
        return out

    def equal(s, o, hyps):
        if s is o:
            return True
        if s.kind != o.kind or set(s.params) != set(o.params):
            return False
        for k in s.params:
            a, b = s.params[k], o.params[k]
            if is_z3(a) or is_z3(b) or (isinstance(a, int) and isinstance(b, int)):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    return False
                if not same_z(a, b, hyps):
                    return False
            elif isinstance(a, SymStr) or isinstance(b, SymStr):
                if a is not b:
                    return False
            elif a != b:
                return False
        return arr_equal(s.inp, o.inp, hyps, read=s.read_guard)

    def why(s, o, hyps):
        """cases (hypotheses, text) in which two applications differ"""
        if s.kind != o.kind or set(s.params) != set(o.params):
            return [(list(hyps), "%r instead of %r" % (s, o))]
        out = []
        for k in s.params:
            a, b = s.params[k], o.params[k]
            if isinstance(a, SymStr) or isinstance(b, SymStr) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                if a is not b and a != b:
                    out.append((list(hyps), "%s: %s %r against %r" % (s.kind, k, a, b)))
            elif is_z3(a) or is_z3(b):
                if not same_z(a, b, hyps):
                    out.append((list(hyps) + [zint(a) != zint(b)], "%s: %s %s against %s" % (s.kind, k, a, b)))
            elif a != b:
                out.append((list(hyps), "%s: %s %r against %r" % (s.kind, k, a, b)))
        if out or len(s.inp.shape) != len(o.inp.shape):
            return out
        for x, y in zip(s.inp.shape, o.inp.shape):
            if not same_z(x, y, hyps):
                out.append((list(hyps) + [zint(x) != zint(y)], "%s: shape %s against %s" % (s.kind, x, y)))
        if out:
            return out
        n0 = len(FAILS)
        arr_equal(s.inp, o.inp, hyps, read=s.read_guard, quiet=False)
        out = [(h, "input of %s: %s" % (s.kind, x)) for h, x in FAILS[n0:]]
        del FAILS[n0:]
        return out

    def read_guard(s, idx):
        """Entries of the input the operator depends on."""
        if s.kind == "SHTI" and s.params.get("reality") is True:
            return idx[1] >= zint(s.params["L"]) - 1
        return None

    def expand(s, a, hyps):
        if s.kind == "SHTI" and prove(hyps, zint(s.params["L"]) == 1):
            return mul(lift(s.inp.elem(z3.IntVal(0), z3.IntVal(0))), power(mul(C(4), PI), Fraction(-1, 2)))
        return None


def arr_equal(a, b, hyps, read=None, quiet=True):
    if a is b:
        return True
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not same_z(x, y, hyps):
            return False
    idx = tuple(fresh_int("p") for _ in a.shape)
    h = list(hyps)
    for i, n in zip(idx, a.shape):
        h += [i >= 0, i < zint(n)]
    if read is not None:
        g = read(idx)
        if g is not None:
            h.append(g)
    try:
        return prove_zero(lift(a.elem(*idx)) - lift(b.elem(*idx)), h, quiet)
    except Undecided as e:
        LAST["inner"] = str(e)
        return False
