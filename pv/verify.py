"""Verification of one function of the repository against its contract.

run_one(qual, variant-index) executes the function's current source symbolically (callees
by contract), generates the obligations and discharges them.  Records have a status
  proved     discharged for all inputs of the contract's domain
  failed     refuted or not derivable: a counter-case remains after exact normalisation
  undecided  solver gave up
  unsupported  the source uses a construct outside of the verified subset
"""
import time, traceback
import z3
from . import terms
from .terms import *
from .values import *
from .interp import World, Machine, State
from .lib import Library
from . import s2fft_ext as X
from . import contracts as K_


class Rec(dict):
    pass


def rec(name, status, detail="", model=None, loc="", t=0.0):
    return Rec(name=name, status=status, detail=str(detail)[:1500], model=model, loc=loc, time=round(t, 3))


MODEL_VARS = ["L", "N", "J_min", "lam", "spin", "spin0", "j", "J_max", "el", "quad_iters"]


def _decls(fs):
    """uninterpreted function applications occurring in the formulas"""
    seen, todo, out = set(), list(fs), []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                out.append(e)
            todo += e.children()
    return out


def _jm(L, lam):
    J, x = 0, 1
    while x < L:
        x, J = x * lam, J + 1
    return J


def _sat(fs):
    sv = z3.Solver()
    sv.set("timeout", 3000)
    sv.add(*fs)
    return sv.model() if str(sv.check()) == "sat" else None


def _params(m):
    d = {}
    for x in m.decls():
        n = x.name()
        if x.arity() == 0 and n in MODEL_VARS:
            v = m[x]
            try:
                d[n] = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
            except Exception:
                pass
    return d


def models_of(hyps, extra=(), want=3):
    """Small counter-models: values of the public parameters."""
    from fractions import Fraction
    base = list(hyps) + list(extra)
    L, lam = z3.Int("L"), z3.Real("lam")
    fs = with_facts(base)
    out = []
    for cap, lm in ((6, 2), (10, 2), (16, 2), (12, 3), (12, Fraction(3, 2)), (32, 2), (72, 2), (200, 2), (None, None)):
        more = []
        if cap is not None:
            lm = Fraction(lm)
            more = [L <= cap, lam == z3.Q(lm.numerator, lm.denominator)]
            g = []
            for e in _decls(fs):
                if e.decl().name() == "POW":
                    b, x = e.children()
                    for k in range(-2, max(12, _jm(cap, lm) + 4)):
                        v = lm ** k
                        g.append(z3.Implies(z3.And(b == z3.Q(lm.numerator, lm.denominator), x == k), e == z3.Q(v.numerator, v.denominator)))
            more += g
        if out:
            more += [L != m["L"] for m in out if "L" in m]
        if cap is None and out:
            break
        m = _sat(with_facts(base + more))
        if m is None:
            continue
        d = _params(m)
        if cap is not None and "L" in d and not d.get("J_min", 0) < _jm(d["L"], lm):
            # pin the band-limit and give the maximum scale its value
            q = z3.Q(lm.numerator, lm.denominator)
            pin = [z3.simplify(z3.substitute(f, (L, z3.IntVal(d["L"])), (lam, q))) for f in with_facts(base + more)]
            jt = z3.Function("JMAX", z3.IntSort(), z3.RealSort(), z3.IntSort())(z3.IntVal(d["L"]), q)
            pin = [z3.simplify(z3.substitute(f, (jt, z3.IntVal(_jm(d["L"], lm))))) for f in pin]
            m = _sat(pin)
            n = d["L"]
            if m is not None:
                d = _params(m)
                d.update(L=n, lam=float(lm))
            if m is None:
                continue
        out.append(d)
        if len(out) >= want:
            break
    return out


DATA_OK = {"POW", "CEIL", "FLOOR", "JMAX", "LS", "LJ", "L0", "L0C", "NJ"}


def data_dependent(hyps):
    """the counter-case depends on something else than the public parameters (e.g. the values of the signal)"""
    return sorted({e.decl().name() for e in _decls(hyps) if e.decl().name() not in DATA_OK and e.decl().name() not in FACTS
                   and not e.decl().name().startswith(("NT", "NP", "r_K", "r_PART", "r_SR"))})


def model_of(hyps, extra=(), more=()):
    """counter-models; more: further cases (hypotheses, text) that describe the difference precisely"""
    ms, dd = [], []
    for h, _ in list(more)[:6]:
        for d in models_of(h, (), 2):
            if d not in ms:
                ms.append(d)
        dd += data_dependent(h)
    if not ms:
        ms = models_of(hyps, extra)
    if not more:
        dd = data_dependent(list(hyps) + list(extra))
    return dict(models=ms, data=sorted(set(dd)))


def make(world, inline=()):
    m = Machine(world, contracts=K_.TABLE, inline=inline)
    e = X.S2FFT(m)
    Library(m, e)
    m.s2 = e
    return m


def heapify(m, st, v):
    if isinstance(v, tuple):
        return tuple(heapify(m, st, x) for x in v)
    if isinstance(v, Lst) and v.items is not None:
        return m.wrap(st, Lst(items=[heapify(m, st, x) for x in v.items]))
    return m.wrap(st, v)


def goal(name, hyps, g, loc=""):
    t0 = time.time()
    g = zbool(g)
    b = as_py_bool(g)
    if b is True:
        return rec(name, "proved", t=0)
    r = check(list(hyps) + [z3.Not(g)])
    if r == "unsat":
        return rec(name, "proved", loc=loc, t=time.time() - t0)
    if r == "unknown":
        return rec(name, "undecided", "solver returned unknown for: %s" % g, loc=loc, t=time.time() - t0)
    return rec(name, "failed", "not valid: %s" % g, model_of(hyps, [z3.Not(g)]), loc, time.time() - t0)


def zero(name, t, hyps):
    t0 = time.time()
    del terms.FAILS[:]
    try:
        if prove_zero(t, hyps):
            return rec(name, "proved", t=time.time() - t0)
        h, res, more = list(terms.LAST.get("hyps", hyps)), terms.LAST.get("residual"), list(terms.FAILS)
        return rec(name, "failed", "difference to the specification: %s  in case %s%s" % (res, [str(x) for x in h[len(hyps):]][:12], "".join("; " + x[1][:200] for x in more[:4])),
                   model_of(h, (), more), t=time.time() - t0)
    except Undecided as e:
        return rec(name, "undecided", e, t=time.time() - t0)


def compare(out, name, got, want, hyps, m, st):
    """Obligations 'got equals want' appended to out."""
    if isinstance(got, (Ref, ERef, VRef)):
        got = m.deref(st, got)
    if isinstance(got, Garbage):
        raise Unsupported("result: " + got.why)
    if isinstance(want, tuple):
        if isinstance(got, Lst) and got.items is not None:
            got = tuple(got.items)
        if not isinstance(got, tuple) or len(got) != len(want):
            out.append(rec(name + ": is a %d-tuple" % len(want), "failed", "got %r" % (got,), model_of(hyps)))
            return
        for i, (a, b) in enumerate(zip(got, want)):
            compare(out, "%s[%d]" % (name, i), a, b, hyps, m, st)
        return
    if isinstance(want, Lst):
        if not isinstance(got, Lst):
            out.append(rec(name + ": is a list", "failed", "got %r" % (got,), model_of(hyps)))
            return
        n1, n2 = got.length(), want.length()
        r = goal(name + ": number of elements", hyps, zint(n1) == zint(n2))
        out.append(r)
        if as_py_int(n2) == 0 or as_py_int(n1) == 0:
            return
        k = fresh_int("k")
        h = list(hyps) + [k >= 0, k < zint(n2)]
        if r["status"] != "proved":
            h.append(k < zint(n1))
        st2 = State(st.env, st.heap, h)
        a = m.list_get(st2, got, k)
        compare(out, name + "[k]", a, want.get(k) if want.items is None else want.items[0], h, m, st2)
        return
    if isinstance(want, Arr):
        if not isinstance(got, Arr):
            out.append(rec(name + ": is an array", "failed", "got %r" % (got,), model_of(hyps)))
            return
        if want.lib == "torch" or got.lib == "torch":
            if got.lib != want.lib:
                out.append(rec(name + ": array library", "failed", "%s instead of %s" % (got.lib, want.lib), model_of(hyps)))
        if len(got.shape) != len(want.shape):
            out.append(rec(name + ": rank", "failed", "%s vs %s" % (got.shape, want.shape), model_of(hyps)))
            return
        for i, (x, y) in enumerate(zip(got.shape, want.shape)):
            out.append(goal(name + ": shape axis %d" % i, hyps, zint(x) == zint(y)))
        if got.dtype in ("f4", "c8"):
            out.append(rec(name + ": double precision", "failed", got.dtype, model_of(hyps)))
        idx = [fresh_int(c) for c in ("p", "q", "r", "s")[:len(want.shape)]]
        h = list(hyps)
        for i, d in zip(idx, want.shape):
            h += [i >= 0, i < zint(d)]
        w = want.elem(*idx)
        wl = lift(w)
        hit = []
        if isinstance(want.tag, tuple) and want.tag[0] == "need":
            # comparison restricted to where the specification is defined
            h.append(want.tag[1](*idx))
        g = lift(got.elem(*idx))
        if want.dtype in ("f", "i") and got.dtype == "c":
            out.append(rec(name + ": real dtype", "failed", "complex array", model_of(hyps)))
        if want.dtype == "c" and got.dtype in ("i", "f") and not is_real(wl):
            out.append(rec(name + ": complex dtype", "failed", "real array", model_of(hyps)))
        out.append(zero(name + ": value", g - wl, h))
        return
    if isinstance(want, Kern):
        if not isinstance(got, Kern) or got.kind != want.kind:
            out.append(rec(name + ": kernel kind", "failed", "%r" % (got,), model_of(hyps)))
            return
        for k, v in want.params.items():
            w = got.params.get(k)
            if isinstance(v, (str, SymStr)) or isinstance(w, (str, SymStr)):
                ok = X.sname(v) == X.sname(w)
                out.append(rec("%s: kernel %s" % (name, k), "proved" if ok else "failed", "%r" % (w,)))
            elif isinstance(v, bool) or isinstance(w, bool):
                out.append(rec("%s: kernel %s" % (name, k), "proved" if v is w else "failed", "%r instead of %r" % (w, v), None if v is w else model_of(hyps)))
            else:
                out.append(goal("%s: kernel %s" % (name, k), hyps, zint(w) == zint(v)))
        if got.lib != want.lib and "torch" in (got.lib, want.lib):
            out.append(rec(name + ": kernel library", "failed", got.lib, model_of(hyps)))
        return
    if is_int(want):
        if not is_int(got):
            out.append(rec(name + ": is an integer", "failed", "got %r" % (got,), model_of(hyps)))
            return
        out.append(goal(name, hyps, zint(got) == zint(want)))
        return
    if isinstance(want, T):
        if not is_num(got):
            out.append(rec(name + ": is a number", "failed", "got %r" % (got,), model_of(hyps)))
            return
        out.append(zero(name, lift(got) - want, hyps))
        return
    if want is None:
        out.append(rec(name + ": None", "proved" if got is None else "failed"))
        return
    raise Unsupported("comparison with %r" % (want,))


def storage(m, st, v, out, depth=0):
    """(description, heap cells) of the arrays and lists of a result"""
    if isinstance(v, Ref):
        x = st.heap[v.id]
        if not isinstance(x, Arr):
            out.append(("list", frozenset([v.id])))
        v = x
    elif isinstance(v, (ERef, VRef)):
        v = m.deref(st, v)
    if isinstance(v, Arr):
        out.append(("array", v.mem()))
    elif isinstance(v, tuple) or isinstance(v, Lst) and v.items is not None:
        for x in (v if isinstance(v, tuple) else v.items):
            storage(m, st, x, out, depth + 1)
    elif isinstance(v, Lst):
        k = fresh_int("k")
        storage(m, State(st.env, st.heap, list(st.pc) + [k >= 0, k < zint(v.n)]), m.list_get(State(st.env, st.heap, list(st.pc) + [k >= 0, k < zint(v.n)]), v, k), out, depth + 1)


def fresh_obls(out, m, st, val, args, hyps):
    cells = []
    storage(m, st, val, cells)
    seen = set()
    bad = []
    for what, c in cells:
        if "shared" in c or c & seen:
            bad.append("two results share one %s" % what)
        if c & args:
            bad.append("a returned %s shares storage with an argument" % what)
        seen |= c
    out.append(rec("fresh: results are newly owned storage", "failed" if bad else "proved", "; ".join(bad), model_of(hyps) if bad else None))


def vname(v):
    return ",".join("%s=%s" % (k, v[k].name if isinstance(v[k], SymStr) else v[k]) for k in sorted(v) if k not in ("nside",)) or "-"


def run_one(world, c, v, inline=()):
    """-> dict(function, variant, records, used contracts, stats)"""
    t0 = time.time()
    q0 = dict(terms.STATS)
    terms.POW_NL[0] = bool(c.nl)
    out = []
    res = dict(function=c.qual, variant=vname(v), records=out, called=[], inlined=[], assumed=[], external=[])
    fn = world.func(c.qual)
    if fn is None:
        out.append(rec("function present", "unsupported", "no function " + c.qual))
        return res
    m = make(world, inline={c.qual} | set(inline))
    st = None
    try:
        env, pre = c.params(v)
        pre = list(pre)
        rc = c.raises(env) if c.raises is not None else None
        # vacuity: the domain is inhabited
        nv = pre + ([z3.Not(rc)] if rc is not None else [])
        mods = models_of(nv, want=1)
        out.append(rec("precondition satisfiable", "proved" if mods else "undecided", "" if mods else "no model of the precondition found"))
        st = State({}, {}, pre)
        names = [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]
        henv = {k: heapify(m, st, x) for k, x in env.items()}
        for k in list(henv):
            if k not in names:
                raise Unsupported("parameter %s is gone from %s" % (k, c.qual))
        snap = dict(st.heap)
        val = m.call_function(st, fn, [], henv)
        hyps = list(st.pc)
        for o in m.obls:
            out.append(goal(o.name, o.hyps, o.goal, o.loc))
        for i, (pc, exc) in enumerate(m.raises):
            if rc is not None and exc == "ValueError":
                out.append(goal("ValueError only when J_min is invalid", pc, rc))
            else:
                out.append(goal("no %s raised" % exc, pc, z3.BoolVal(False)))
        for pc, cond, gv in m.asserts:
            out.append(goal("assertion holds", pc, cond))
        if rc is not None:
            out.append(goal("returns only when J_min is valid", hyps, z3.Not(rc)))
            hyps = hyps + [z3.Not(rc)]
        mods = models_of(hyps, want=1)
        out.append(rec("some input returns", "proved" if mods else "undecided", "" if mods else "no model of a returning path found"))
        # frame
        for h, old in snap.items():
            new = st.heap.get(h)
            if new is old:
                out.append(rec("frame: argument object %d not modified" % h, "proved"))
            elif isinstance(new, Arr) and isinstance(old, Arr):
                compare(out, "frame: argument array not modified", new, old, hyps, m, st)
            else:
                out.append(rec("frame: argument object not modified", "failed", "argument list is modified in place", model_of(hyps)))
        fresh_obls(out, m, st, val, set(snap), hyps)
        if c.qual == "samples.j_max":
            if not is_int(val):
                out.append(rec("J is an integer", "failed", val, model_of(hyps)))
            else:
                J, L = zint(val), z3.ToReal(K_.Lv)
                out.append(goal("lam^(J-1) < L", hyps, POW(K_.lamv, simp(J - 1)) < L))
                out.append(goal("L <= lam^J", hyps, L <= POW(K_.lamv, J)))
        else:
            want = c.spec(env)
            compare(out, "result", val, want, hyps, m, st)
    except NeedConcrete as e:
        res["need"] = e.name
        raise
    except Unsupported as e:
        out.append(rec("within the verified subset", "unsupported", "%s  at %s" % (e, " > ".join(m.stack[-3:]))))
    except (Undecided, z3.Z3Exception, RecursionError) as e:
        out.append(rec("decided", "undecided", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-500:])))
    finally:
        terms.POW_NL[0] = False
        res["called"] = sorted(m.called)
        res["inlined"] = sorted(m.inlined)
        res["assumed"] = sorted(m.assumed)
        res["external"] = sorted(m.s2.used)
        res["time"] = round(time.time() - t0, 2)
        res["solver"] = {k: (round(terms.STATS[k] - q0[k], 3)) for k in q0}
    return res


def run(world, qual, vi, inline=()):
    c = K_.TABLE[qual]
    v = c.variants[vi]
    try:
        return [run_one(world, c, v, inline)]
    except NeedConcrete as e:
        if not isinstance(v.get("sampling"), SymStr):
            return [dict(function=qual, variant=vname(v), records=[rec("decided", "unsupported", "opaque %s" % e.name)], called=[], inlined=[], assumed=[], external=[], time=0, solver={})]
        r = []
        for s in X.SAMP:
            try:
                r.append(run_one(world, c, dict(v, sampling=s), inline))
            except NeedConcrete as e:
                r.append(dict(function=qual, variant=vname(v), records=[rec("decided", "unsupported", "opaque %s" % e.name)], called=[], inlined=[], assumed=[], external=[], time=0, solver={}))
        return r
