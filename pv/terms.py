"""Field terms (real/complex numbers) over z3 integers, and the equality prover.

Terms are polynomials with rational exponents over
  * rational constants, PI and the imaginary unit,
  * integer expressions and real expressions of z3,
  * atoms  name(args)  (args are z3 integers/reals), optionally conjugated,
  * guarded choices Ite(g, a, b), g a z3 Bool,
  * Sum / Prod over an integer range,
  * opaque function applications.
Equality is decided by case splitting on guards with z3 and comparing normal
forms; sums are compared extensionally after aligning their bound variables.
All arithmetic is exact (real numbers), never floating point.
"""
from fractions import Fraction
import itertools, time
import z3

Int = z3.IntSort()
_fresh = itertools.count()


class Unsupported(Exception):
    """The construct is outside of the verified subset."""


class Undecided(Exception):
    pass


def fresh_int(base="v"):
    return z3.Int("%s!%d" % (base, next(_fresh)))


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(e):
    return z3.simplify(e, som=True) if is_z3(e) else e


def as_py_int(e):
    if isinstance(e, int):
        return int(e)
    if is_z3(e):
        if z3.is_int_value(e):
            return e.as_long()
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def zbool(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def as_py_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


# ---------------------------------------------------------------- z3 context
POW = z3.Function("POW", z3.RealSort(), Int, z3.RealSort())

POW_NL = [False]
FACTS = {}      # decl name -> f(args) -> list of z3 Bool (instantiated assumptions)
PAIRFACTS = {}  # decl name -> f(args1,args2)


def _pow_facts(a):
    b, e = a
    p = POW(b, e)
    r = [z3.Implies(b > 0, p > 0), z3.Implies(e == 0, p == 1), z3.Implies(e == 1, p == b),
         z3.Implies(z3.And(b > 1, e >= 1), p >= b), z3.Implies(z3.And(b > 1, e <= -1), p < 1),
         z3.Implies(z3.And(b > 1, e > 1), p > b)]
    return r


def _pow_pair(a1, a2):
    b1, e1 = a1
    b2, e2 = a2
    if not b1.eq(b2):
        return []
    p1, p2 = POW(b1, e1), POW(b2, e2)
    r = [z3.Implies(z3.And(b1 > 1, e1 < e2), p1 < p2), z3.Implies(z3.And(b1 > 1, e2 < e1), p2 < p1),
         z3.Implies(e1 == e2, p1 == p2)]
    d = as_py_int(e2 - e1)
    if not POW_NL[0]:
        pass
    elif d == 1:
        r.append(p2 == b1 * p1)
    elif d == -1:
        r.append(p1 == b1 * p2)
    return r


CEIL = z3.Function("CEIL", z3.RealSort(), Int)
FLOOR = z3.Function("FLOOR", z3.RealSort(), Int)
FACTS["CEIL"] = lambda a: [z3.ToReal(CEIL(a[0])) >= a[0], z3.ToReal(CEIL(a[0])) < a[0] + 1]
FACTS["FLOOR"] = lambda a: [z3.ToReal(FLOOR(a[0])) <= a[0], z3.ToReal(FLOOR(a[0])) > a[0] - 1]
FACTS["POW"] = _pow_facts
PAIRFACTS["POW"] = _pow_pair

STATS = dict(queries=0, time=0.0, unknown=0, sat=0, unsat=0, cases=0)


_appmemo = {}   # expr id -> (expr, frozenset of ids of fact-bearing applications in it)
_appreg = {}    # id -> (name, application)
_EMPTY = frozenset()


def _apps1(e):
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _appmemo:
            st.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        else:
            ch = x.children()
        todo = [c for c in ch if c.get_id() not in _appmemo]
        if todo:
            st.extend(todo)
            continue
        r = _EMPTY
        for c in ch:
            q = _appmemo[c.get_id()][1]
            if q:
                r = q if not r else r | q
        if ch and z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n in FACTS or n in PAIRFACTS:
                    _appreg[i] = (n, x, ch)
                    r = r | {i}
        _appmemo[i] = (x, r)
        st.pop()
    return _appmemo[e.get_id()][1]


_factmemo = {}
_pairmemo = {}


def _facts_of(i):
    key = (i, POW_NL[0])
    if key not in _factmemo:
        n, e, ch = _appreg[i]
        _factmemo[key] = list(FACTS[n](ch)) if n in FACTS else []
    return _factmemo[key]


def _pair_of(i, k):
    key = (i, k, POW_NL[0])
    if key not in _pairmemo:
        n, e, ch = _appreg[i]
        _pairmemo[key] = list(PAIRFACTS[n](ch, _appreg[k][2]))
    return _pairmemo[key]


def with_facts(fs):
    allf = list(fs)
    done = {}
    seen = set()
    front = allf
    for _ in range(3):
        ids = set()
        for f in front:
            ids |= _apps1(f)
        fresh = sorted(ids - seen)
        if not fresh:
            break
        seen |= ids
        new = []
        for i in fresh:
            n = _appreg[i][0]
            new += _facts_of(i)
            if n in PAIRFACTS:
                for o in done.setdefault(n, []):
                    new += _pair_of(o, i)
                done[n].append(i)
        if not new:
            break
        allf = allf + new
        front = new
    return allf


_cache = {}
_keep = []
TIMEOUT_MS = 8000


def check(fs, want_model=False, timeout=None):
    """'sat' | 'unsat' | 'unknown' of the conjunction (with instantiated facts)."""
    fs = [f for f in fs if not z3.is_true(f)]
    for f in fs:
        if z3.is_false(f):
            return ("unsat", None) if want_model else "unsat"
    key = frozenset(f.get_id() for f in fs)
    if not want_model and key in _cache:
        return _cache[key]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    s.add(*with_facts(fs))
    r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    STATS[r] += 1
    _keep.append(fs)
    _cache[key] = r
    if want_model:
        return r, (s.model() if r == "sat" else None)
    return r


def prove(hyps, goal):
    g = as_py_bool(goal)
    if g is True:
        return True
    return check(list(hyps) + [z3.Not(zbool(goal))]) == "unsat"


def feasible(hyps, cond=None):
    c = [zbool(cond)] if cond is not None else []
    return check(list(hyps) + c) != "unsat"


# -------------------------------------------------------------------- terms
class T:
    __slots__ = ()

    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return add(s, mul(C(-1), lift(o)))
    def __rsub__(s, o): return add(lift(o), mul(C(-1), s))
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return mul(s, power(lift(o), Fraction(-1)))
    def __rtruediv__(s, o): return mul(lift(o), power(s, Fraction(-1)))
    def __neg__(s): return mul(C(-1), s)
    def __pow__(s, e): return power(s, Fraction(e))


class C(T):
    __slots__ = ("v",)
    def __init__(s, v): s.v = Fraction(v)
    def __repr__(s): return str(s.v)


class Sym(T):  # PI, I
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n


PI = Sym("PI")
IM = Sym("I")


class Z(T):  # z3 Int or Real expression
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
    def __repr__(s): return "Z(%s)" % s.e


class PInt(Z):
    """Python integer (unbounded) given by a real-valued expression: base ** exp."""
    __slots__ = ("base", "exp")
    def __init__(s, e, base, exp): s.e, s.base, s.exp = e, base, exp


class A(T):
    """Atom.  op: optional OpApp-like object with .subst/.equal; real: bool."""
    __slots__ = ("name", "args", "real", "op", "cj")
    def __init__(s, name, args, real=False, op=None, cj=False):
        s.name, s.args, s.real, s.op, s.cj = name, tuple(args), real, op, cj
    def __repr__(s): return "%s%s(%s)" % ("~" if s.cj else "", s.name, ",".join(str(a) for a in s.args))


class Add(T):
    __slots__ = ("ts",)
    def __init__(s, ts): s.ts = ts
    def __repr__(s): return "(" + " + ".join(map(repr, s.ts)) + ")"


class Mul(T):
    __slots__ = ("ts",)
    def __init__(s, ts): s.ts = ts
    def __repr__(s): return "*".join(map(repr, s.ts))


class Pow(T):
    __slots__ = ("b", "e")
    def __init__(s, b, e): s.b, s.e = b, e
    def __repr__(s): return "%r^(%s)" % (s.b, s.e)


class Ite(T):
    __slots__ = ("g", "a", "b")
    def __init__(s, g, a, b): s.g, s.a, s.b = g, a, b
    def __repr__(s): return "Ite(%s,%r,%r)" % (s.g, s.a, s.b)


class Sum(T):
    """Sum over all integers v with guard g(v) of body."""
    __slots__ = ("v", "g", "body")
    def __init__(s, v, g, body): s.v, s.g, s.body = v, g, body
    def __repr__(s): return "Sum[%s|%s](%r)" % (s.v, s.g, s.body)


class Prod(T):
    """Product over v in [lo, hi) of body."""
    __slots__ = ("v", "lo", "hi", "body")
    def __init__(s, v, lo, hi, body): s.v, s.lo, s.hi, s.body = v, lo, hi, body
    def __repr__(s): return "Prod[%s in %s..%s](%r)" % (s.v, s.lo, s.hi, s.body)


class Fn(T):
    """Opaque real function of a term (exp, abs, ...)."""
    __slots__ = ("name", "args")
    def __init__(s, name, args): s.name, s.args = name, tuple(args)
    def __repr__(s): return "%s(%s)" % (s.name, ",".join(map(repr, s.args)))


ZERO, ONE = C(0), C(1)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, (int, Fraction)):
        return C(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return C(Fraction(x))
    if isinstance(x, complex):
        return add(lift(x.real), mul(IM, lift(x.imag)))
    if is_z3(x):
        if z3.is_bool(x):
            return Ite(x, ONE, ZERO)
        v = as_py_int(x) if x.is_int() else None
        if v is not None:
            return C(v)
        if z3.is_rational_value(x):
            return C(x.as_fraction())
        return Z(x)
    raise Unsupported("cannot lift %r to a number" % (x,))


def add(a, b):
    if isinstance(a, C):
        if a.v == 0:
            return b
        if isinstance(b, C):
            return C(a.v + b.v)
    if isinstance(b, C) and b.v == 0:
        return a
    ts = (a.ts if isinstance(a, Add) else [a]) + (b.ts if isinstance(b, Add) else [b])
    return Add(list(ts))


def mul(a, b):
    if isinstance(a, C):
        if a.v == 0:
            return ZERO
        if a.v == 1:
            return b
        if isinstance(b, C):
            return C(a.v * b.v)
    if isinstance(b, C):
        if b.v == 0:
            return ZERO
        if b.v == 1:
            return a
    ts = (a.ts if isinstance(a, Mul) else [a]) + (b.ts if isinstance(b, Mul) else [b])
    return Mul(list(ts))


def power(b, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if isinstance(b, C):
        if e.denominator == 1:
            if b.v == 0 and e < 0:
                return Fn("inv0", ())
            return C(b.v ** int(e))
        if b.v == 0:
            return ZERO if e > 0 else Fn("inv0", ())
        if b.v == 1:
            return ONE
    if isinstance(b, Ite):
        return ite(b.g, power(b.a, e), power(b.b, e))
    return Pow(b, e)


def ite(g, a, b):
    r = as_py_bool(g)
    if r is True:
        return a
    if r is False:
        return b
    if a is b:
        return a
    if isinstance(a, C) and isinstance(b, C) and a.v == b.v:
        return a
    return Ite(g, a, b)


def sqrt(t):
    return power(t, Fraction(1, 2))


def sgn(e):
    """(-1)**e for an integer e"""
    v = as_py_int(e)
    if v is not None:
        return C(-1 if v % 2 else 1)
    return Ite(e % 2 == 0, ONE, C(-1))


def conj(t):
    if isinstance(t, (C, Z, Prod)):
        return t
    if isinstance(t, Sym):
        return mul(C(-1), t) if t.n == "I" else t
    if isinstance(t, A):
        return t if t.real else A(t.name, t.args, t.real, t.op, not t.cj)
    if isinstance(t, Add):
        r = ZERO
        for x in t.ts:
            r = add(r, conj(x))
        return r
    if isinstance(t, Mul):
        r = ONE
        for x in t.ts:
            r = mul(r, conj(x))
        return r
    if isinstance(t, Pow):
        if t.e.denominator == 1:
            return Pow(conj(t.b), t.e)
        if is_real(t.b):
            return t  # real radicand: nonnegative (sqrt domain is an obligation)
        raise Unsupported("conjugate of complex root")
    if isinstance(t, Ite):
        return Ite(t.g, conj(t.a), conj(t.b))
    if isinstance(t, Sum):
        return Sum(t.v, t.g, conj(t.body))
    if isinstance(t, Fn):
        if t.name in ("abs", "exp", "inv0", "log", "floor") and all(is_real(a) or t.name == "abs" for a in t.args):
            return t
        raise Unsupported("conjugate of " + t.name)
    raise Unsupported("conj")


def is_real(t):
    if isinstance(t, (C, Z)):
        return True
    if isinstance(t, Sym):
        return t.n != "I"
    if isinstance(t, A):
        return t.real
    if isinstance(t, (Add, Mul)):
        return all(is_real(x) for x in t.ts)
    if isinstance(t, Pow):
        return is_real(t.b)
    if isinstance(t, Ite):
        return is_real(t.a) and is_real(t.b)
    if isinstance(t, (Sum, Prod)):
        return is_real(t.body)
    if isinstance(t, Fn):
        return t.name in ("abs", "floor", "inv0") or all(is_real(a) for a in t.args)
    return False


def tsubst(t, pairs):
    """Substitute z3 constants by z3 expressions."""
    if not pairs:
        return t
    zs = lambda e: z3.substitute(e, *pairs) if is_z3(e) else e
    if isinstance(t, (C, Sym)):
        return t
    if isinstance(t, Z):
        return lift(simp(zs(t.e)))
    if isinstance(t, A):
        return A(t.name, [zs(a) for a in t.args], t.real, t.op.subst(pairs) if t.op is not None else None, t.cj)
    if isinstance(t, Add):
        r = ZERO
        for x in t.ts:
            r = add(r, tsubst(x, pairs))
        return r
    if isinstance(t, Mul):
        r = ONE
        for x in t.ts:
            r = mul(r, tsubst(x, pairs))
        return r
    if isinstance(t, Pow):
        return power(tsubst(t.b, pairs), t.e)
    if isinstance(t, Ite):
        return ite(zs(t.g), tsubst(t.a, pairs), tsubst(t.b, pairs))
    if isinstance(t, Sum):
        return Sum(t.v, zs(t.g), tsubst(t.body, pairs))
    if isinstance(t, Prod):
        return Prod(t.v, zs(t.lo), zs(t.hi), tsubst(t.body, pairs))
    if isinstance(t, Fn):
        return Fn(t.name, [tsubst(a, pairs) for a in t.args])
    raise Unsupported("subst")


def mentions(t, v):
    """Does z3 constant v occur in t?"""
    if isinstance(t, (C, Sym)):
        return False
    if isinstance(t, Z):
        return z_mentions(t.e, v)
    if isinstance(t, A):
        return any(z_mentions(a, v) for a in t.args) or (t.op is not None and t.op.mentions(v))
    if isinstance(t, (Add, Mul)):
        return any(mentions(x, v) for x in t.ts)
    if isinstance(t, Pow):
        return mentions(t.b, v)
    if isinstance(t, Ite):
        return z_mentions(t.g, v) or mentions(t.a, v) or mentions(t.b, v)
    if isinstance(t, Sum):
        return z_mentions(t.g, v) or mentions(t.body, v)
    if isinstance(t, Prod):
        return z_mentions(t.lo, v) or z_mentions(t.hi, v) or mentions(t.body, v)
    if isinstance(t, Fn):
        return any(mentions(a, v) for a in t.args)
    return True


def z_mentions(e, v):
    if not is_z3(e):
        return False
    seen = set()
    st = [e]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def walk_atoms(t, f):
    """Call f on every atom (not inside ops)."""
    if isinstance(t, A):
        f(t)
    elif isinstance(t, (Add, Mul)):
        for x in t.ts:
            walk_atoms(x, f)
    elif isinstance(t, Pow):
        walk_atoms(t.b, f)
    elif isinstance(t, Ite):
        walk_atoms(t.a, f); walk_atoms(t.b, f)
    elif isinstance(t, (Sum, Prod)):
        walk_atoms(t.body, f)
    elif isinstance(t, Fn):
        for x in t.args:
            walk_atoms(x, f)


def map_atoms(t, f):
    """Rebuild t replacing every atom a by f(a)."""
    if isinstance(t, A):
        return f(t)
    if isinstance(t, Add):
        r = ZERO
        for x in t.ts:
            r = add(r, map_atoms(x, f))
        return r
    if isinstance(t, Mul):
        r = ONE
        for x in t.ts:
            r = mul(r, map_atoms(x, f))
        return r
    if isinstance(t, Pow):
        return power(map_atoms(t.b, f), t.e)
    if isinstance(t, Ite):
        return ite(t.g, map_atoms(t.a, f), map_atoms(t.b, f))
    if isinstance(t, Sum):
        return Sum(t.v, t.g, map_atoms(t.body, f))
    if isinstance(t, Prod):
        return Prod(t.v, t.lo, t.hi, map_atoms(t.body, f))
    if isinstance(t, Fn):
        return Fn(t.name, [map_atoms(a, f) for a in t.args])
    return t


# ------------------------------------------------------- conversion to z3 Real
def real_uf(name, args):
    sorts = [a.sort() if is_z3(a) else Int for a in args]
    return z3.Function("r_" + name, *sorts, z3.RealSort())(*[zint(a) for a in args])


PIV = z3.Real("PI")
EXTRA_REAL = [PIV > 3, PIV < 4]


def to_real(t):
    """z3 Real expression of a real term; None if not expressible."""
    if isinstance(t, C):
        return z3.RealVal(str(t.v))
    if isinstance(t, Z):
        return z3.ToReal(t.e) if t.e.is_int() else t.e
    if isinstance(t, Sym):
        return PIV if t.n == "PI" else None
    if isinstance(t, A):
        if t.real and t.op is None:
            return real_uf(t.name, t.args)
        return None
    if isinstance(t, Add):
        rs = [to_real(x) for x in t.ts]
        return None if any(r is None for r in rs) else z3.Sum(rs)
    if isinstance(t, Mul):
        rs = [to_real(x) for x in t.ts]
        if any(r is None for r in rs):
            return None
        p = rs[0]
        for r in rs[1:]:
            p = p * r
        return p
    if isinstance(t, Pow):
        b = to_real(t.b)
        if b is None:
            return None
        if t.e.denominator == 1:
            n = int(t.e)
            p = b
            for _ in range(abs(n) - 1):
                p = p * b
            return p if n > 0 else 1 / p
        return None
    if isinstance(t, Ite):
        a, b = to_real(t.a), to_real(t.b)
        return None if a is None or b is None else z3.If(t.g, a, b)
    return None


# ------------------------------------------------------------------ prover
class Rep:
    """Canonical representatives of bases under hypotheses."""

    def __init__(s, hyps):
        s.hyps = hyps
        s.reps = []  # (kind, object)

    def atom(s, a):
        for i, (k, o) in enumerate(s.reps):
            if k == "A" and o.name == a.name and o.cj == a.cj and len(o.args) == len(a.args):
                if same_atom(o, a, s.hyps):
                    return i
        s.reps.append(("A", a))
        return len(s.reps) - 1

    def zexp(s, e):
        e = simp(e)
        for i, (k, o) in enumerate(s.reps):
            if k == "Z" and o.sort() == e.sort():
                if o.eq(e) or prove(s.hyps, o == e):
                    return i
        s.reps.append(("Z", e))
        return len(s.reps) - 1

    def opaque(s, t):
        for i, (k, o) in enumerate(s.reps):
            if k == "O" and type(o) is type(t) and same_opaque(o, t, s.hyps):
                return i
        s.reps.append(("O", t))
        return len(s.reps) - 1


def same_z(a, b, hyps):
    if not is_z3(a) and not is_z3(b):
        return a == b
    a, b = zint(a), zint(b)
    if a.sort() != b.sort():
        return False
    if a.eq(b) or simp(a).eq(simp(b)):
        return True
    return prove(hyps, a == b)


def same_atom(o, a, hyps):
    for x, y in zip(o.args, a.args):
        if not same_z(x, y, hyps):
            return False
    if (o.op is None) != (a.op is None):
        return False
    if o.op is not None and o.op is not a.op:
        return o.op.equal(a.op, hyps)
    return True


def same_opaque(o, t, hyps):
    if isinstance(t, Sum):
        try:
            return prove_zero(add(o, mul(C(-1), t)), hyps, quiet=True)
        except (Undecided, Unsupported):
            return False
    if isinstance(t, Prod):
        n1, n2 = o.hi - o.lo, t.hi - t.lo
        if not prove(hyps, z3.Or(n1 == n2, z3.And(n1 <= 0, n2 <= 0))):
            return False
        k = fresh_int("k")
        b1 = tsubst(o.body, [(o.v, o.lo + k)])
        b2 = tsubst(t.body, [(t.v, t.lo + k)])
        try:
            return prove_zero(b1 - b2, list(hyps) + [k >= 0, k < n1], quiet=True)
        except (Undecided, Unsupported):
            return False
    if isinstance(t, Fn):
        if o.name != t.name or len(o.args) != len(t.args):
            return False
        try:
            return all(prove_zero(x - y, hyps, quiet=True) for x, y in zip(o.args, t.args))
        except (Undecided, Unsupported):
            return False
    if isinstance(t, Pow):
        if o.e != t.e:
            return False
        try:
            return prove_zero(o.b - t.b, hyps, quiet=True)
        except (Undecided, Unsupported):
            return False
    return False


NZ = {}


def nz_guard(name, args):
    sorts = [zint(a).sort() for a in args]
    return z3.Function("nz_" + name, *sorts, z3.BoolSort())(*[zint(a) for a in args])


def top_guards(t, out):
    """Guards not under a binder."""
    if isinstance(t, Ite):
        out.append(t.g)
        top_guards(t.a, out); top_guards(t.b, out)
    elif isinstance(t, (Add, Mul)):
        for x in t.ts:
            top_guards(x, out)
    elif isinstance(t, Pow):
        top_guards(t.b, out)
    elif isinstance(t, Fn):
        for x in t.args:
            top_guards(x, out)


_ifc = {}


def if_cond(e):
    """Condition of an innermost integer/real If inside a z3 expression, or None."""
    if not is_z3(e):
        return None
    i = e.get_id()
    if i in _ifc:
        return _ifc[i][0]
    r = None
    if z3.is_app(e) and e.num_args():
        for c in e.children():
            r = if_cond(c)
            if r is not None:
                break
        if r is None and e.decl().kind() == z3.Z3_OP_ITE:
            r = e.arg(0)
        if r is None and e.decl().kind() == z3.Z3_OP_MOD and as_py_int(e.arg(1)) == 2:
            r = e == 0
    _ifc[i] = (r, e)
    return r


def first_guard(t):
    if isinstance(t, Ite):
        return t.g
    if isinstance(t, A):
        for a in t.args:
            g = if_cond(a)
            if g is not None:
                return g
        return None
    if isinstance(t, Z):
        return if_cond(t.e)
    if isinstance(t, (Add, Mul)):
        for x in t.ts:
            g = first_guard(x)
            if g is not None:
                return g
    if isinstance(t, Pow):
        return first_guard(t.b)
    if isinstance(t, Fn):
        for x in t.args:
            g = first_guard(x)
            if g is not None:
                return g
    return None


def assume(t, g, val):
    """Resolve Ites whose guard is syntactically g (or its negation)."""
    gid = g.get_id()
    pr = [(g, z3.BoolVal(val))]
    if z3.is_eq(g) and z3.is_app(g.arg(0)) and g.arg(0).decl().kind() == z3.Z3_OP_MOD and as_py_int(g.arg(0).arg(1)) == 2 and as_py_int(g.arg(1)) == 0:
        pr.append((g.arg(0), z3.IntVal(0 if val else 1)))

    def zs(e):
        return simp(z3.substitute(e, *pr)) if if_cond(e) is not None else e

    def go(t):
        if isinstance(t, A):
            if any(if_cond(a) is not None for a in t.args):
                return A(t.name, [zs(a) for a in t.args], t.real, t.op, t.cj)
            return t
        if isinstance(t, Z):
            return lift(zs(t.e)) if if_cond(t.e) is not None else t
        if isinstance(t, Ite):
            if t.g.get_id() == gid:
                return go(t.a) if val else go(t.b)
            a, b = go(t.a), go(t.b)
            return t if a is t.a and b is t.b else ite(t.g, a, b)
        if isinstance(t, Add):
            r = ZERO
            for x in t.ts:
                r = add(r, go(x))
            return r
        if isinstance(t, Mul):
            r = ONE
            for x in t.ts:
                r = mul(r, go(x))
                if isinstance(r, C) and r.v == 0:
                    return r
            return r
        if isinstance(t, Pow):
            return power(go(t.b), t.e)
        if isinstance(t, Fn):
            return Fn(t.name, [go(a) for a in t.args])
        return t
    return go(t)


def reduce_ites(t, hyps):
    """Resolve top-level guards decided by hyps."""
    if isinstance(t, Ite):
        g = t.g
        r = as_py_bool(g)
        if r is None:
            if not feasible(hyps, g):
                r = False
            elif not feasible(hyps, z3.Not(g)):
                r = True
        if r is True:
            return reduce_ites(t.a, hyps)
        if r is False:
            return reduce_ites(t.b, hyps)
        return ite(g, reduce_ites(t.a, list(hyps) + [g]), reduce_ites(t.b, list(hyps) + [z3.Not(g)]))
    if isinstance(t, Add):
        r = ZERO
        for x in t.ts:
            r = add(r, reduce_ites(x, hyps))
        return r
    if isinstance(t, Mul):
        r = ONE
        for x in t.ts:
            r = mul(r, reduce_ites(x, hyps))
            if isinstance(r, C) and r.v == 0:
                return r
        return r
    if isinstance(t, Pow):
        return power(reduce_ites(t.b, hyps), t.e)
    if isinstance(t, Fn):
        return Fn(t.name, [reduce_ites(a, hyps) for a in t.args])
    return t


def factorint(n):
    f = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


class NF:
    """Normaliser to {monomial: coefficient}; monomial = frozenset((baseid, exp))."""

    def __init__(s, hyps):
        s.hyps = list(hyps)
        s.rep = Rep(s.hyps)
        s.sums = {}

    def const_pow(s, v, e):
        # v>0 Fraction, e Fraction -> (coef, {('p',prime):frac})
        coef = Fraction(1)
        m = {}
        for sign, n in ((1, v.numerator), (-1, v.denominator)):
            for p, k in factorint(n).items():
                x = e * k * sign
                ip = x.numerator // x.denominator
                fr = x - ip
                coef *= Fraction(p) ** ip
                if fr:
                    m[("p", p)] = m.get(("p", p), 0) + fr
        return coef, m

    def norm(s, t):
        """-> dict monomial(frozenset of (base,exp)) -> Fraction"""
        if isinstance(t, C):
            return {frozenset(): t.v} if t.v else {}
        if isinstance(t, Sym):
            return {frozenset([(("s", t.n), Fraction(1))]): Fraction(1)}
        if isinstance(t, Z):
            return s.norm_z(t.e)
        if isinstance(t, A):
            if t.real and t.op is None:
                # zero / constant value known from the hypotheses?
                z = real_uf(t.name, t.args)
                if s.known_zero(z):
                    return {}
            elif not t.cj or True:
                g = nz_guard(t.name, t.args)
                if t.op is None and s.has_nz_hyp(t.name) and prove(s.hyps, z3.Not(g)):
                    return {}
            return {frozenset([(("b", s.rep.atom(t)), Fraction(1))]): Fraction(1)}
        if isinstance(t, Add):
            r = {}
            for x in t.ts:
                for m, c in s.norm(x).items():
                    r[m] = r.get(m, 0) + c
                    if r[m] == 0:
                        del r[m]
            return r
        if isinstance(t, Mul):
            r = {frozenset(): Fraction(1)}
            for x in t.ts:
                r = s.pmul(r, s.norm(x))
                if not r:
                    return r
            return r
        if isinstance(t, Pow):
            b = s.norm(t.b)
            return s.ppow(b, t.e, t.b)
        if isinstance(t, (Sum, Prod, Fn)):
            if isinstance(t, Sum):
                return {frozenset([(("S", s.add_sum(t)), Fraction(1))]): Fraction(1)}
            return {frozenset([(("b", s.rep.opaque(t)), Fraction(1))]): Fraction(1)}
        raise Unsupported("norm %r" % (t,))

    def has_nz_hyp(s, name):
        return ("nz_" + name) in getattr(s, "_nznames", None) if hasattr(s, "_nznames") else s._mk(name)

    def _mk(s, name):
        names = set()
        st = list(s.hyps)
        seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                names.add(e.decl().name())
            st.extend(e.children())
        s._nznames = names
        return ("nz_" + name) in names

    def known_zero(s, z):
        # only ask z3 when the hypotheses mention the symbol
        s.has_nz_hyp("")
        n = z.decl().name()
        if n in s._nznames or n in FACTS:
            return prove(s.hyps, z == 0)
        return False

    def add_sum(s, t):
        i = len(s.sums)
        s.sums[i] = t
        return i

    def norm_z(s, e):
        e = simp(e)
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return {frozenset(): v} if v else {}
        if z3.is_rational_value(e):
            v = Fraction(e.as_fraction())
            return {frozenset(): v} if v else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in e.children():
                for m, c in s.norm_z(x).items():
                    r[m] = r.get(m, 0) + c
                    if r[m] == 0:
                        del r[m]
            return r
        if k == z3.Z3_OP_MUL:
            r = {frozenset(): Fraction(1)}
            for x in e.children():
                r = s.pmul(r, s.norm_z(x))
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in s.norm_z(e.children()[0]).items()}
        if k == z3.Z3_OP_TO_REAL:
            return s.norm_z(e.children()[0])
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            return s.pmul(s.norm_z(a), s.ppow(s.norm_z(b), Fraction(-1), Z(b)))
        if k == z3.Z3_OP_ITE:
            g, a, b = e.children()
            if prove(s.hyps, g):
                return s.norm_z(a)
            if prove(s.hyps, z3.Not(g)):
                return s.norm_z(b)
        return {frozenset([(("b", s.rep.zexp(e)), Fraction(1))]): Fraction(1)}

    def pmul(s, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, c = s.mmul(m1, m2)
                c = c * c1 * c2
                r[m] = r.get(m, 0) + c
                if r[m] == 0:
                    del r[m]
        return r

    def mmul(s, m1, m2):
        d = dict(m1)
        for b, e in m2:
            d[b] = d.get(b, 0) + e
        c = Fraction(1)
        out = {}
        for b, e in d.items():
            if e == 0:
                continue
            if b == ("s", "I"):
                k = int(e) % 4
                if k >= 2:
                    c = -c
                if k % 2:
                    out[b] = Fraction(1)
                continue
            if b[0] == "p":
                ip = e.numerator // e.denominator
                c *= Fraction(b[1]) ** ip
                e = e - ip
                if e == 0:
                    continue
            out[b] = e
        return frozenset(out.items()), c

    def nonneg_base(s, b):
        if b[0] == "p" or b == ("s", "PI"):
            return True
        if b[0] == "b":
            k, o = s.rep.reps[b[1]]
            if k == "Z":
                return prove(s.hyps, o >= 0)
            if k == "A" and o.real and o.op is None:
                return prove(s.hyps, real_uf(o.name, o.args) >= 0)
            if k == "O" and isinstance(o, Fn) and o.name in ("abs", "exp"):
                return True
            if k == "O" and isinstance(o, Pow) and o.e.denominator == 2:
                return True
            if k == "O" and isinstance(o, Prod):
                v = fresh_int("k")
                z = to_real(tsubst(o.body, [(o.v, v)]))
                return z is not None and prove(s.hyps + [v >= o.lo, v < o.hi], z >= 0)
        return False

    def nonzero_base(s, x):
        if x[0] in "ps":
            return True
        if x[0] == "b":
            k, o = s.rep.reps[x[1]]
            if k == "Z":
                return prove(s.hyps, o != 0)
            if k == "A" and o.real and o.op is None:
                return prove(s.hyps, real_uf(o.name, o.args) != 0)
            if k == "O" and isinstance(o, Fn) and o.name == "exp":
                return True
            if k == "O" and isinstance(o, Prod):
                v = fresh_int("k")
                z = to_real(tsubst(o.body, [(o.v, v)]))
                return z is not None and prove(s.hyps + [v >= o.lo, v < o.hi], z != 0)
        return False

    def ppow(s, b, e, orig):
        if e < 0 and len(b) == 1:
            (m, c), = b.items()
            if not all(s.nonzero_base(x) for x, _ in m):
                i = s.rep.opaque(Pow(orig, e))
                return {frozenset([(("b", i), Fraction(1))]): Fraction(1)}
        if e.denominator == 1 and e > 0:
            r = {frozenset(): Fraction(1)}
            for _ in range(int(e)):
                r = s.pmul(r, b)
            return r
        if not b:
            if e > 0:
                return {}
            return {frozenset([(("b", s.rep.opaque(Fn("inv0", ()))), Fraction(1))]): Fraction(1)}
        if len(b) == 1:
            (m, c), = b.items()
            if any(x[0] == "S" for x, _ in m):
                raise Undecided("power of a sum")
            neg = c < 0
            if e.denominator == 1 or (not neg and all(s.nonneg_base(x) for x, ex in m)):
                coef, pm = s.const_pow(abs(c), e)
                if neg and int(e) % 2:
                    coef = -coef
                mm = {}
                for x, ex in m:
                    if x == ("s", "I"):
                        if e.denominator != 1:
                            break
                        k = int(ex * e) % 4
                        mm[x] = Fraction(k)
                    else:
                        mm[x] = ex * e
                else:
                    r1, c1 = s.mmul(frozenset(mm.items()), frozenset(pm.items()))
                    return {r1: c1 * coef}
        # polynomial base: pull out the rational content and the common monomial,
        # the rest becomes one z3 base, e.g. (2l+1)^(1/2)
        from math import gcd
        num, den = 0, 1
        for c in b.values():
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        cont = Fraction(num, den)
        common = None
        for m in b:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {x: min(common.get(x, 0), d.get(x, 0)) for x in set(common) | set(d)}
        common = {x: ex for x, ex in common.items() if ex != 0 and x[0] != "S"}
        if e.denominator != 1 and not all(s.nonneg_base(x) for x in common):
            common = {}
        inv = frozenset((x, -ex) for x, ex in common.items())
        resid = {}
        for m, c in b.items():
            m2, c2 = s.mmul(m, inv)
            resid[m2] = resid.get(m2, 0) + c * c2 / cont
        z = s.poly_z(resid)
        if z is not None:
            base = simp(z)
            s.has_nz_hyp("")
            if e > 0 and prove(s.hyps, base == 0):
                return {}
            if (e > 0 or prove(s.hyps, base != 0)) and (e.denominator == 1 or prove(s.hyps, base >= 0)):
                i = s.rep.zexp(base)
                coef, pm = s.const_pow(cont, e)
                mm = {("b", i): e}
                for x, ex in list(common.items()):
                    mm[x] = mm.get(x, 0) + ex * e
                r1, c1 = s.mmul(frozenset(mm.items()), frozenset(pm.items()))
                return {r1: c1 * coef}
        i = s.rep.opaque(Pow(orig, e))
        return {frozenset([(("b", i), Fraction(1))]): Fraction(1)}


def _poly_z(s, poly):
    """z3 Real of a polynomial with non-negative integer exponents over real bases, or None."""
    tot = []
    for m, c in poly.items():
        p = z3.RealVal(str(c))
        for x, ex in m:
            if ex.denominator != 1 or ex < 0:
                return None
            if x == ("s", "PI"):
                z = PIV
            elif x[0] == "b":
                k, o = s.rep.reps[x[1]]
                if k == "Z":
                    z = z3.ToReal(o) if o.is_int() else o
                elif k == "A" and o.real and o.op is None:
                    z = real_uf(o.name, o.args)
                else:
                    return None
            else:
                return None
            for _ in range(int(ex)):
                p = p * z
        tot.append(p)
    return z3.Sum(tot) if tot else z3.RealVal(0)


NF.poly_z = _poly_z
def _expand(a, hyps):
    if a.op is not None:
        x = a.op.expand(a, hyps)
        if x is not None:
            return conj(x) if a.cj else x
    return a


LAST = {}
FAILS = []     # failing cases (hypotheses, text) of the current comparison
CASE_LIMIT = 4000


def prove_zero(t, hyps, quiet=False, depth=0):
    """True if t == 0 for all valuations satisfying hyps.  False: not proved
    (LAST holds the failing case)."""
    hyps = list(hyps)
    STATS["cases"] += 1
    t = map_atoms(t, lambda a: _expand(a, hyps))
    t = reduce_ites(t, hyps)
    g = first_guard(t)
    if g is not None:
        if depth > 60:
            raise Undecided("case depth")
        ok, n0 = True, len(FAILS)
        for val in (True, False):
            h = hyps + [g if val else z3.Not(g)]
            if not feasible(h):
                continue
            try:
                if not prove_zero(assume(t, g, val), h, quiet, depth + 1):
                    ok = False
            except (Undecided, Unsupported):
                if ok:
                    raise
            if not ok and (quiet or len(FAILS) - n0 >= 4):
                return False
        return ok
    nf = NF(hyps)
    d = nf.norm(t)
    if not d:
        return True
    plain = {}
    sums = []
    for m, c in d.items():
        ss = [(b, e) for b, e in m if b[0] == "S"]
        if not ss:
            plain[m] = c
            continue
        if len(ss) > 1 or ss[0][1] != 1:
            raise Undecided("product of sums")
        rest = frozenset(x for x in m if x[0][0] != "S")
        sums.append((nf.sums[ss[0][0][1]], rest, c))
    if plain:
        # nonlinear relations between integer bases: polynomial identity may hide in (2l+1)*(2l+1)^-1
        plain = expand_bases(nf, plain)
    if plain:
        plain = {m: c for m, c in plain.items() if not mono_zero(nf, m, hyps)}
        if plain:
            plain = expand_bases(nf, plain)
    if plain:
        if not feasible(hyps):
            return True
        res = show(nf, plain)
        if not quiet:
            FAILS.extend(why_differ(nf, plain, hyps) or [(hyps, res)])
        LAST.clear()
        LAST.update(hyps=hyps, residual=res, exact=True)
        return False
    if not sums:
        return True
    return zero_sums(nf, sums, hyps, quiet, depth)


def why_differ(nf, plain, hyps):
    """Cases (hypotheses, text) in which two applications of the same symbol in the residual differ: where their
    arguments differ, or, for harmonic transforms, where their parameters or inputs differ."""
    out, atoms = [], []
    for m in plain:
        for b, e in m:
            if b[0] == "b" and nf.rep.reps[b[1]][0] == "A":
                o = nf.rep.reps[b[1]][1]
                if not any(o is x for x in atoms):
                    atoms.append(o)
    for i, a in enumerate(atoms):
        for b in atoms[i + 1:]:
            if a.name != b.name or len(a.args) != len(b.args) or len(out) >= 8:
                continue
            ne = [zint(x) != zint(y) for x, y in zip(a.args, b.args) if not same_z(x, y, hyps)]
            if ne:
                h = list(hyps) + [z3.Or(*ne) if len(ne) > 1 else ne[0]]
                if feasible(h):
                    out.append((h, "%s and %s" % (a, b)))
            elif a.op is not None and b.op is not None:
                out += a.op.why(b.op, hyps)
    return out[:8]


def mono_zero(nf, m, hyps):
    """hyps imply that one of the factors is zero"""
    nz = []
    for b, e in m:
        if b[0] != "b" or e <= 0:
            continue
        k, o = nf.rep.reps[b[1]]
        if k == "Z":
            nz.append(o != 0)
        elif k == "A" and o.op is None:
            if o.real:
                nz.append(real_uf(o.name, o.args) != 0)
            nz.append(nz_guard(o.name, o.args))
    return bool(nz) and check(list(hyps) + nz) == "unsat"


def expand_bases(nf, plain):
    """Monomials with negative powers of non-constant integer polynomials are
    multiplied out:  sum_i c_i m_i = 0  iff  it is 0 after multiplying by the
    common (nonzero) denominators, whose bases are then expanded."""
    den = {}
    for m in plain:
        for b, e in m:
            if b[0] == "b" and nf.rep.reps[b[1]][0] == "Z" and e.denominator == 1 and e < 0:
                den[b] = min(den.get(b, 0), e)
    pos = any(b[0] == "b" and nf.rep.reps[b[1]][0] == "Z" and not z3.is_const(nf.rep.reps[b[1]][1])
              for m in plain for b, e in m)
    if not den and not pos:
        return plain
    r = {}
    for m, c in plain.items():
        d = dict(m)
        for b, e in den.items():
            d[b] = d.get(b, 0) - e
        poly = {frozenset(): c}
        for b, e in d.items():
            if e == 0:
                continue
            if b[0] == "b" and nf.rep.reps[b[1]][0] == "Z" and e.denominator == 1 and e > 0:
                z = nf.rep.reps[b[1]][1]
                pz = nf.norm_z(z)
                # avoid infinite loop: norm_z of an atomic z gives itself
                for _ in range(int(e)):
                    poly = nf.pmul(poly, pz)
            else:
                poly = nf.pmul(poly, {frozenset([(b, e)]): Fraction(1)})
        for m2, c2 in poly.items():
            r[m2] = r.get(m2, 0) + c2
            if r[m2] == 0:
                del r[m2]
    return r


def show(nf, d):
    out = []
    for m, c in list(d.items())[:6]:
        out.append("%s*%s" % (c, "*".join("%s^%s" % (b[1] if b[0] in "ps" else (nf.rep.reps[b[1]][1] if b[0] == "b" else "Sum"), e) for b, e in m)))
    return " + ".join(out)[:1500]


def base_term(nf, b):
    if b[0] == "p":
        return C(b[1])
    if b[0] == "s":
        return PI if b[1] == "PI" else IM
    k, o = nf.rep.reps[b[1]]
    return Z(o) if k == "Z" else o


def flatten_sum(s):
    """-> ([vars], guard, body) with nested directly-contained sums merged when body is a single product."""
    vs, g, body = [s.v], s.g, s.body
    return vs, g, body


def distribute(t):
    """Body of a sum -> list of (guards, [vars], term-without-top-level Sum/Ite)."""
    if isinstance(t, Ite):
        return [([t.g] + g, v, x) for g, v, x in distribute(t.a)] + [([z3.Not(t.g)] + g, v, x) for g, v, x in distribute(t.b)]
    if isinstance(t, Add):
        r = []
        for x in t.ts:
            r += distribute(x)
        return r
    if isinstance(t, Mul):
        r = [([], [], ONE)]
        for x in t.ts:
            dx = distribute(x)
            r = [(g1 + g2, v1 + v2, mul(a, b)) for g1, v1, a in r for g2, v2, b in dx]
            r = [q for q in r if not (isinstance(q[2], C) and q[2].v == 0)]
        return r
    if isinstance(t, C) and t.v == 0:
        return []
    if isinstance(t, Sum):
        v = fresh_int("s")
        body = tsubst(t.body, [(t.v, v)])
        g = z3.substitute(t.g, (t.v, v))
        return [([g] + gg, [v] + vv, x) for gg, vv, x in distribute(body)]
    if isinstance(t, Pow) and first_guard(t) is not None:
        g = first_guard(t)
        return distribute(Ite(g, assume(t, g, True), assume(t, g, False)))
    return [([], [], t)]


def linear_in(e, v):
    """(a, b) with e == a*v + b, a integer constant; None otherwise."""
    if not is_z3(e) or not e.is_int():
        return None
    b = simp(z3.substitute(e, (v, z3.IntVal(0))))
    a1 = simp(z3.substitute(e, (v, z3.IntVal(1))) - b)
    a = as_py_int(a1)
    if a is None or a == 0:
        return None
    # verify linearity
    if simp(e - (a * v + b)).eq(z3.IntVal(0)) or check([e != a * v + b]) == "unsat":
        return a, b
    return None


def zero_sums(nf, sums, hyps, quiet, depth):
    items = []
    for sm, rest, c in sums:
        coef = C(c)
        for b, e in rest:
            coef = mul(coef, power(base_term(nf, b), e))
        for gs, vs, body in distribute(mul(coef, sm)):
            h = hyps + gs
            if not feasible(h):
                continue
            items.append((gs, vs, body))
    if not items:
        return True
    # group by number of variables; align variables by the atoms they index
    groups = {}
    for gs, vs, body in items:
        gs, vs, body = eliminate_points(gs, vs, body, hyps)
        groups.setdefault(len(vs), []).append((gs, vs, body))
    for n, its in groups.items():
        if n == 0:
            tot = ZERO
            for gs, vs, body in its:
                tot = add(tot, ite(z3.And(*gs) if gs else z3.BoolVal(True), body, ZERO))
            if not prove_zero(tot, hyps, quiet, depth + 1):
                return False
            continue
        keys = None
        infos = []
        for gs, vs, body in its:
            info = {}

            def note(key, arg):
                for v in vs:
                    if is_z3(arg) and z_mentions(arg, v):
                        li = linear_in(arg, v)
                        if li and abs(li[0]) <= 4 and not z_mentions(li[1], v):
                            info.setdefault(key, []).append((v, li))

            def visit(a):
                for pos, arg in enumerate(a.args):
                    note((a.name, pos), arg)
                if a.op is not None:
                    for (pos, arg) in a.op.index_exprs():
                        note((a.name, "op", pos), arg)
            walk_atoms(body, visit)
            ks = {k for k, l in info.items()}
            keys = ks if keys is None else keys & ks
            infos.append(info)

        def triangular(info, vs, combo):
            """[(var, (a, b))] per key, where b mentions only variables of earlier keys"""
            out, left = [], list(vs)
            for k in combo:
                for v, (a, b) in info[k]:
                    if any(w.eq(v) for w in left) and not any(z_mentions(b, w) for w in left if not w.eq(v)):
                        out.append((v, (a, b)))
                        left = [w for w in left if not w.eq(v)]
                        break
                else:
                    return None
            return out
        # choose keys determining all variables, the same keys for all items
        chosen = None
        for combo in itertools.permutations(sorted(keys, key=str), n):
            tri = [triangular(info, vs, combo) for info, (_, vs, _) in zip(infos, its)]
            if all(x is not None for x in tri):
                chosen = tri
                break
        if chosen is None and not (n == 1 and all(len(vs) == 1 for _, vs, _ in its)):
            raise Undecided("cannot align sums")
        tv = [fresh_int("t") for _ in range(n)]
        tot = ZERO
        for q, (gs, vs, body) in enumerate(its):
            pairs, extra = [], []
            if chosen is None:
                pairs = [(vs[0], tv[0])]  # no atom indexes the variable: identify the variables themselves
            else:
                for (v, (a, b)), t in zip(chosen[q], tv):
                    b = z3.substitute(b, *pairs) if pairs else b
                    if a in (1, -1):
                        pairs.append((v, simp((t - b) * a)))
                    else:
                        extra.append((t - b) % abs(a) == 0)
                        pairs.append((v, (t - b) / a if a > 0 else (b - t) / (-a)))
            g = [z3.substitute(x, *pairs) for x in gs] + extra
            tot = add(tot, ite(z3.And(*g) if len(g) != 1 else g[0], tsubst(body, pairs), ZERO))
        if not prove_zero(tot, hyps, quiet, depth + 1):
            return False
    return True


def conjuncts(gs):
    out = []
    st = list(gs)
    while st:
        g = st.pop()
        if z3.is_and(g):
            st.extend(g.children())
        else:
            out.append(g)
    return out


def solve_for(gs, v, hyps):
    """Expression sol with (hyps & gs) => v == sol, sol free of v; else None."""
    for g in conjuncts(gs):
        if z3.is_eq(g):
            a, b = g.children()
            if not a.is_int():
                continue
            li = linear_in(simp(a - b), v)
            if li:
                k, c = li
                if z_mentions(c, v):
                    continue
                sol = simp(-c) if k == 1 else simp(c) if k == -1 else ((-c) / k if k > 0 else c / (-k))
                if prove(list(hyps) + list(gs), v == sol):
                    return sol
    return None


def eliminate_points(gs, vs, body, hyps):
    vs = list(vs)
    ch = True
    while ch:
        ch = False
        for v in vs:
            sol = solve_for(gs, v, hyps)
            if sol is not None and not z_mentions(sol, v):
                gs = [z3.substitute(g, (v, sol)) for g in gs]
                body = tsubst(body, [(v, sol)])
                vs = [w for w in vs if not w.eq(v)]
                ch = True
                break
    return gs, vs, body
