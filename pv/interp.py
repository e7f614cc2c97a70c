"""Symbolic executor for the Python source of the package under verification.

The source text is read from the repository on every run; nothing is
transcribed.  Integers are mathematical integers, floats are real numbers.
Loops over symbolic ranges are summarised exactly (append, indexed store with a
unique writer, accumulation, product, last value, counters); the side conditions of each
summary are proved with z3.  Anything else raises Unsupported.
"""
import ast, os
import z3
from .terms import *
from .values import *

MAXPATH = 64


class Module:
    def __init__(s, world, path, dotted):
        s.world, s.path, s.dotted = world, path, dotted
        s.short = dotted.split(".")[-1]
        s.src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.tree = ast.parse(s.src)
        s.globals = {}
        s.lazy = {}
        s.odd = None
        for n in s.tree.body:
            s.load(n)

    def load(s, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    s.globals[a.asname] = Mod(a.name)
                else:
                    s.globals[a.name.split(".")[0]] = Mod(a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            m = n.module or ""
            if n.level:
                base = s.dotted.split(".")[:-n.level]
                m = ".".join(base + ([m] if m else []))
            for a in n.names:
                s.globals[a.asname or a.name] = Mod(m + "." + a.name)  # module or object; resolved on use
        elif isinstance(n, ast.FunctionDef):
            s.globals[n.name] = UFn(s, n, None, n.decorator_list)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            s.lazy[n.targets[0].id] = n.value
            s.globals.pop(n.targets[0].id, None)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            s.lazy[n.target.id] = n.value
            s.globals.pop(n.target.id, None)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, (ast.ClassDef, ast.Pass)):
            pass
        elif isinstance(n, ast.Expr) and ast.unparse(n).startswith(("jax.config.update(", "config.update(", "warnings.")):
            pass
        else:
            s.odd = "module-level statement: " + ast.unparse(n)[:80]


class World:
    """All modules of the repository package."""

    def __init__(s, root=os.environ.get("RT_REPO", "/repo"), pkg="s2wav"):
        s.mods = {}
        s.root = root
        for d, _, fs in os.walk(os.path.join(root, pkg)):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    s.mods[rel] = Module(s, p, rel)

    def func(s, qual):
        m, f = qual.rsplit(".", 1)
        for d, mod in s.mods.items():
            if d == m or d.endswith("." + m):
                g = mod.globals.get(f)
                if isinstance(g, UFn):
                    return g
        return None


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(s, env, heap, pc):
        s.env, s.heap, s.pc = env, heap, pc

    def copy(s):
        return State(dict(s.env), dict(s.heap), list(s.pc))


class Obligation:
    def __init__(s, name, hyps, goal, loc):
        s.name, s.hyps, s.goal, s.loc = name, list(hyps), goal, loc
        s.status = None


class Machine:
    def __init__(s, world, contracts=None, externals=None, inline=()):
        s.world = world
        s.contracts = contracts or {}
        s.inline = set(inline)
        s.ext = externals or {}
        s.obls = []       # Obligation
        s.raises = []     # (pc, excname)
        s.asserts = []    # (pc, cond)
        s.nid = 0
        s.stack = []
        s.called = set()  # contracts used
        s.inlined = set()
        s.assumed = set()
        s.lib = None
        s.guardvars = []
        s.realinputs = set()
        s.frozen = set()
        s.ist = None         # state in which the loop element is taken
        s.mayalias = set()   # cells that may be another name of an existing object
        s.frame0 = [0]       # first cell of each frame
        s.loop0 = []         # last cell before each enclosing symbolic loop

    # ------------------------------------------------------------ heap
    def alloc(s, st, v):
        s.nid += 1
        if isinstance(v, Arr) and v.lib != "jnp":
            if v.hid is not None:
                v = v.dup()
            v.hid = s.nid
        st.heap[s.nid] = v
        return Ref(s.nid)

    def deref(s, st, v):
        if isinstance(v, Ref):
            return st.heap[v.id]
        if isinstance(v, ERef):
            l = s.deref(st, v.base)
            r = s.deref(st, s.list_get(st, l, v.idx))
            if isinstance(r, Arr) and r.lib != "jnp" and isinstance(v.base, Ref):
                r = r.dup(r.mem() | {v.base.id})
            return r
        if isinstance(v, VRef):
            b = s.deref(st, v.base)
            r = s.lib.index(b, v.spec, st)
            if isinstance(r, Arr) and r.lib != "jnp" and isinstance(b, Arr):
                r = r.dup(r.src | b.mem())
            return r
        return v

    def deep(s, st, v):
        """Dereference recursively to pure values."""
        v = s.deref(st, v)
        if isinstance(v, tuple):
            return tuple(s.deep(st, x) for x in v)
        if isinstance(v, Lst) and v.items is not None:
            return Lst(items=[s.deep(st, x) for x in v.items])
        return v

    def wrap(s, st, v):
        """Arrays of mutable libraries and lists live on the heap."""
        if isinstance(v, Arr) and v.lib in ("np", "torch"):
            return s.alloc(st, v)
        if isinstance(v, Lst):
            return s.alloc(st, v)
        return v

    def write(s, st, ref, v):
        if isinstance(ref, Ref):
            old = st.heap[ref.id]
            if ref.id in s.frozen:
                raise Unsupported("in-place update of an array stored in a list")
            if ref.id in s.mayalias:
                raise Unsupported("in-place update of an object that may have another name")
            if isinstance(old, Arr):
                for k, x in st.env.items():
                    if isinstance(x, Ref) and x.id != ref.id and isinstance(st.heap.get(x.id), Arr) and ref.id in st.heap[x.id].src:
                        raise Unsupported("in-place update of an array with a live view")
                if isinstance(v, Arr) and v.lib != "jnp":
                    if v.hid is not None:
                        v = v.dup()
                    v.hid, v.src = ref.id, old.src
            if getattr(old, "tag", None) == "maybe_view":
                raise Unsupported("in-place update of a possible view")
            st.heap[ref.id] = v
        elif isinstance(ref, ERef):
            l = s.deref(st, ref.base)
            s.write(st, ref.base, s.list_set(st, l, ref.idx, v))
        elif isinstance(ref, VRef):
            b = s.deref(st, ref.base)
            s.write(st, ref.base, s.lib.store(b, ref.spec, v, st, s))
        else:
            raise Unsupported("in-place update of an immutable value")

    # ------------------------------------------------------------ lists
    def list_len(s, st, l):
        if isinstance(l, PLst):
            raise Unsupported("length of a list under modification")
        return l.length()

    def norm_index(s, st, k, n, what):
        """Python index semantics with bounds obligation."""
        kk = as_py_int(k)
        if kk is not None:
            k = kk
        nn = as_py_int(n)
        if kk is not None and nn is not None:
            if not (-nn <= kk < nn):
                s.oblige(st, "index in bounds: " + what, z3.BoolVal(False))
                raise Unsupported("index out of range")
            return kk % nn if nn else kk
        kz, nz = zint(k), zint(n)
        s.oblige(st, "index in bounds: " + what, z3.And(kz >= -nz, kz < nz))
        if prove(st.pc, kz >= 0):
            return k
        if prove(st.pc, kz < 0):
            return simp(kz + nz)
        return z3.If(kz < 0, kz + nz, kz)

    def list_get(s, st, l, k):
        if isinstance(l, PLst):
            kz = zint(k)
            for w, v in reversed(l.stores):
                if prove(st.pc, zint(w) == kz):
                    return v
                if not prove(st.pc, zint(w) != kz):
                    raise Unsupported("read of a list under modification")
            if l.app:
                raise Unsupported("read of a list that is being appended to")
            if "inv" in l.rec:
                w, e, _ = l.rec["inv"]
                if prove(st.pc, zint(w) == kz):
                    return e
                if not prove(st.pc, zint(w) != kz):
                    raise Unsupported("read of a list under modification")
            b = l.base
            k = s.norm_index(st, k, s.plen(b), "list")
            l.rec["reads"].append((zint(k), list(st.pc)))
            return s.list_get(st, b, k)
        if l.items is not None:
            kk = as_py_int(k)
            if kk is None:
                n = len(l.items)
                k = s.norm_index(st, k, n, "list")
                r = l.items[0]
                for i in range(1, n):
                    r = s.merge_val(st, st, st, zint(k) == i, l.items[i], r)
                return r
            return l.items[s.norm_index(st, kk, len(l.items), "list")]
        k = s.norm_index(st, k, l.n, "list")
        return l.get(zint(k))

    def plen(s, l):
        while isinstance(l, PLst):
            if l.app:
                raise Unsupported("length of a list under modification")
            l = l.base
        return l.length()

    def freeze(s, v):
        while isinstance(v, VRef):
            v = v.base
        if isinstance(v, Ref):
            s.frozen.add(v.id)

    def list_set(s, st, l, k, v):
        s.freeze(v)
        v = s.deep(st, v)
        if isinstance(l, PLst):
            k = s.norm_index(st, k, s.plen(l), "list")
            st2 = [(w, x) for w, x in l.stores]
            return PLst(l.base, l.app, st2 + [(zint(k), v)], l.rec)
        if l.items is not None and as_py_int(k) is not None:
            k = s.norm_index(st, as_py_int(k), len(l.items), "list")
            it = list(l.items)
            it[k] = v
            return Lst(items=it)
        n = l.length()
        k = s.norm_index(st, k, n, "list")
        old = l

        def get(q):
            c = zint(q) == zint(k)
            if as_py_bool(c) is True or prove([], c):
                return v
            if prove([], z3.Not(c)):
                return s.list_get(st, old, q)
            return s.merge_val(st, st, st, c, v, s.list_get(st, old, q))
        return Lst(n=n, get=get)

    # ------------------------------------------------------------ obligations
    def oblige(s, st, name, goal):
        g = as_py_bool(goal)
        if g is True:
            return
        loc = " > ".join(s.stack[-2:])
        s.obls.append(Obligation(name, st.pc, zbool(goal), loc))

    def raise_(s, st, exc):
        s.raises.append((list(st.pc), exc))

    # ------------------------------------------------------------ merging
    def owned(s, st, v, names):
        """the object is local to the current frame and has no other name than the given number of variables"""
        if isinstance(v, (ERef, VRef)):
            return False
        if not isinstance(v, Ref):
            return True
        if v.id <= s.frame0[-1] or v.id in s.frozen or v.id in s.mayalias:
            return False

        def count(x):
            while isinstance(x, (VRef, ERef)):
                x = x.base
            if isinstance(x, Ref):
                h = st.heap.get(x.id)
                return 1 if x.id == v.id or (isinstance(h, Arr) and v.id in h.src) else 0
            return sum(count(y) for y in x) if isinstance(x, tuple) else 0
        return sum(count(x) for x in st.env.values()) <= names

    def merge_val(s, st, s1, s2, c, a, b, own=0):
        """Value equal to a if c else b; a lives in s1.heap, b in s2.heap; result usable in st."""
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, (Ref, ERef, VRef)) or isinstance(b, (Ref, ERef, VRef)):
            if isinstance(a, (ERef, VRef)) and isinstance(b, type(a)):
                pass
            v = s.merge_val(st, s1, s2, c, s.deep(s1, a), s.deep(s2, b))
            r = s.wrap(st, v)
            if isinstance(r, Ref) and not (s.owned(s1, a, own) and s.owned(s2, b, own)):
                s.mayalias.add(r.id)
            return r
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                raise Unsupported("merge of arrays of different rank")
            shp = []
            for x, y in zip(a.shape, b.shape):
                if same_z(x, y, []):
                    shp.append(x)
                else:
                    shp.append(z3.If(c, zint(x), zint(y)))
            ea, eb = a.elem, b.elem
            return Arr(a.lib, shp, jdtype(a.dtype, b.dtype), lambda *i: s.merge_scalar(c, ea(*i), eb(*i)), src=a.mem() | b.mem())
        if isinstance(a, PLst) and isinstance(b, PLst):
            raise Unsupported("conditional update of a list in a loop")
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Lst(items=[s.merge_val(st, s1, s2, c, x, y) for x, y in zip(a.items, b.items)])
            na, nb = a.length(), b.length()
            n = na if same_z(na, nb, []) else z3.If(c, zint(na), zint(nb))
            ga = (lambda k: s.list_get(s1, a, k))
            gb = (lambda k: s.list_get(s2, b, k))
            return Lst(n=n, get=lambda k: s.merge_val(st, s1, s2, c, ga(k), gb(k)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(s.merge_val(st, s1, s2, c, x, y) for x, y in zip(a, b))
        if isinstance(a, Kern) and isinstance(b, Kern) and a.kind == b.kind:
            return Kern(a.kind, {k: (a.params[k] if same_any(a.params[k], b.params[k]) else s.merge_scalar(c, a.params[k], b.params[k])) for k in a.params}, a.lib)
        if is_num(a) and is_num(b):
            return s.merge_scalar(c, a, b)
        if isinstance(a, (str, Lib, Mod, UFn, type(None), SymStr)) and type(a) is type(b) and (a == b or (isinstance(a, Mod) and a.name == b.name)):
            return a
        return Garbage("merge of %r and %r" % (type(a), type(b)))

    def merge_scalar(s, c, a, b):
        if isinstance(a, (bool,)) and isinstance(b, bool) and a == b:
            return a
        if is_boolv(a) and is_boolv(b):
            return z3.If(c, zbool(a), zbool(b))
        if is_int(a) and is_int(b):
            if same_z(a, b, []):
                return a
            return z3.If(c, zint(a), zint(b))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            raise Unsupported("merge of non-numbers")
        return ite(c, lift(a), lift(b))

    def merge_state(s, c, a, b, base):
        """Join of two states under condition c (a) / not c (b)."""
        st = State({}, {}, list(base.pc))
        # pc: keep common prefix plus implications
        la, lb = a.pc[len(base.pc):], b.pc[len(base.pc):]
        for f in la:
            if not f.eq(c):
                st.pc.append(z3.Implies(c, f))
        nc = z3.Not(c)
        for f in lb:
            if not f.eq(nc):
                st.pc.append(z3.Implies(nc, f))
        for i in set(a.heap) | set(b.heap):
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None or y is None:
                st.heap[i] = x if y is None else y
            elif x is y:
                st.heap[i] = x
            else:
                st.heap[i] = s.merge_val(st, a, b, c, x, y)
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                st.env[k] = s.merge_val(st, a, b, c, a.env[k], b.env[k], 1)
            else:
                st.env[k] = Garbage("possibly unassigned " + k)
        return st

    # ------------------------------------------------------------ calls
    def call_function(s, st, fn, args, kw):
        """Inline execution.  Returns value; st is updated in place."""
        node = fn.node
        for d in fn.decos:
            if not s.ok_deco(d):
                raise Unsupported("decorator %s on %s" % (ast.unparse(d), getattr(node, "name", "?")))
        if len(s.stack) > 30:
            raise Unsupported("recursion")
        for mod in s.world.mods.values():
            if mod.odd:
                raise Unsupported("%s: %s" % (mod.dotted, mod.odd))
        env = s.bind(st, fn, args, kw)
        if isinstance(node, ast.Lambda):
            sub = State(env, st.heap, st.pc)
            sub.env["__mod__"] = fn.mod
            sub.env["__closure__"] = fn.closure
            return s.eval(node.body, sub)
        s.stack.append(fn.qual)
        env["__mod__"] = fn.mod
        env["__closure__"] = fn.closure
        entry = len(st.pc)
        sub = State(env, dict(st.heap), list(st.pc))
        s.frame0.append(s.nid)
        outs = s.block(node.body, sub)
        s.frame0.pop()
        s.stack.pop()
        rets = []
        for o, sig in outs:
            if sig is None:
                rets.append((o, None))
            elif sig[0] == "ret":
                rets.append((o, sig[1]))
            else:
                raise Unsupported("stray loop control")
        if not rets:
            st.pc.append(z3.BoolVal(False))
            return Garbage("no return")
        cur, val = rets[-1]
        base = State({}, st.heap, st.pc)
        for o, v in reversed(rets[:-1]):
            c = z3.And(*o.pc[entry:]) if len(o.pc) > entry + 1 else (o.pc[entry] if len(o.pc) > entry else z3.BoolVal(True))
            m = State({}, {}, list(st.pc))
            o2 = State({"r": v}, o.heap, o.pc)
            c2 = State({"r": val}, cur.heap, cur.pc)
            m = s.merge_state(c, o2, c2, base)
            cur, val = m, m.env["r"]
        if len(rets) == 1:
            st.pc[:] = cur.pc
        else:
            st.pc[:] = st.pc[:entry] + [z3.Or(*[z3.And(*(o.pc[entry:] or [z3.BoolVal(True)])) for o, _ in rets])]
        st.heap.clear()
        st.heap.update(cur.heap)
        return val

    def ok_deco(s, d):
        t = ast.unparse(d)
        if isinstance(d, ast.Call) and any(k.arg not in ("static_argnums", "static_argnames") for k in d.keywords):
            return False
        return t in ("jit", "jax.jit") or t.startswith(("partial(jit", "partial(jax.jit", "functools.partial(jax.jit", "functools.partial(jit"))

    def bind(s, st, fn, args, kw):
        a = fn.node.args
        if a.kwarg or a.posonlyargs:
            raise Unsupported("signature")
        names = [x.arg for x in a.args]
        env = {}
        args = list(args)
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            raise Unsupported("too many arguments for " + fn.qual)
        for n, v in zip(names, args):
            env[n] = v
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in names + kwo or k in env:
                raise Unsupported("bad keyword %s for %s" % (k, fn.qual))
            env[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = s.eval_default(fn, d, st)
        for n, d in zip(kwo, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = s.eval_default(fn, d, st)
        for n in names + kwo:
            if n not in env:
                raise Unsupported("missing argument %s of %s" % (n, fn.qual))
        return env

    def eval_default(s, fn, d, st):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            raise Unsupported("mutable default argument")
        sub = State({"__mod__": fn.mod, "__closure__": None}, st.heap, st.pc)
        return s.eval(d, sub)

    def call(s, st, f, args, kw):
        f = s.resolve(f)
        if isinstance(f, Partial):
            return s.call(st, f.f, list(f.args) + list(args), dict(f.kw, **kw))
        if isinstance(f, UFn):
            q = f.qual
            c = s.contracts.get(q)
            if c is not None and q not in s.inline and not (s.stack and s.stack[-1] == q and False):
                s.called.add(q)
                env = s.bind(st, f, args, kw)
                return c.apply(s, st, env)
            s.inlined.add(q)
            return s.call_function(st, f, args, kw)
        if isinstance(f, Lib):
            return s.lib.call(st, f.name, args, kw)
        if isinstance(f, Bound):
            return s.lib.method(st, f, args, kw)
        raise Unsupported("call of %r" % (f,))

    def resolve(s, f):
        """Mod -> repository function / module / library object."""
        if isinstance(f, Mod):
            n = f.name
            if n in s.world.mods:
                return f
            if "." in n:
                m, a = n.rsplit(".", 1)
                if m in s.world.mods:
                    g = s.world.mods[m].globals.get(a)
                    if g is not None:
                        return s.resolve(g) if isinstance(g, Mod) else g
                    if a in s.world.mods[m].lazy:
                        return s.lazy_global(s.world.mods[m], a)
                    raise Unsupported("unknown name " + n)
            if n.split(".")[0] == "s2wav":
                raise Unsupported("unknown name " + n)
            if s.lib.is_module(n):
                return f
            c = s.lib.canon(n)
            if c in ("np.pi", "jnp.pi", "math.pi", "torch.pi"):
                return PI
            if c in ("np.newaxis", "jnp.newaxis"):
                return None
            return Lib(c)
        return f

    def lazy_global(s, mod, name):
        st = State({"__mod__": mod, "__closure__": None}, {}, [])
        v = mod.lazy[name]
        if isinstance(v, (ast.List, ast.Dict)) and s.readonly_global(mod, name):
            c = ast.literal_eval(v)
            if isinstance(c, list):
                return tuple(c)
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
            raise Unsupported("mutable module-level state " + name)
        if isinstance(v, ast.Call):
            f = ast.unparse(v.func)
            if f not in ("float", "int", "jit", "jax.jit", "partial", "np.sqrt", "math.sqrt"):
                raise Unsupported("module-level call " + f)
        r = s.eval(v, st)
        if isinstance(r, (Ref, ERef, VRef)):
            raise Unsupported("mutable module-level state " + name)
        return r

    def readonly_global(s, mod, name):
        """a module-level literal that is only indexed, searched or measured"""
        try:
            ast.literal_eval(mod.lazy[name])
        except ValueError:
            return False
        for other in s.world.mods.values():
            if other is not mod and name in other.src:
                return False
        good = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ("index", "count"):
                good.add(id(n.value))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                good.add(id(n.value))
            elif isinstance(n, ast.Compare):
                good |= {id(x) for x in n.comparators if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len":
                good |= {id(x) for x in n.args}
        uses = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name]
        return sum(isinstance(n.ctx, ast.Store) for n in uses) == 1 and all(isinstance(n.ctx, ast.Store) or id(n) in good for n in uses) \
            and not any(isinstance(n, ast.Global) for n in ast.walk(mod.tree))

    # ------------------------------------------------------------ statements
    def block(s, stmts, st):
        """-> [(state, signal)], signal None | ('ret', v) | ('break',) | ('cont',)"""
        cur = [st]
        done = []
        for n in stmts:
            nxt = []
            for c in cur:
                for o, sig in s.stmt(n, c):
                    if sig is None:
                        nxt.append(o)
                    else:
                        done.append((o, sig))
            cur = nxt
            if len(cur) + len(done) > MAXPATH:
                raise Unsupported("too many paths")
            if not cur:
                break
        return [(c, None) for c in cur] + done

    def truth(s, st, v):
        v0 = v
        v = s.deref(st, v) if isinstance(v, (Ref, ERef, VRef)) else v
        if v is None:
            return False
        if is_boolv(v):
            r = as_py_bool(v)
            return v if r is None else r
        if is_int(v):
            r = as_py_int(v)
            return (r != 0) if r is not None else (v != 0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0].startswith("__"):
                raise Unsupported("truth value of " + v[0])
            return len(v) > 0
        if isinstance(v, Lst):
            n = v.length()
            return n > 0
        if isinstance(v, T):
            return s.lib.nonzero(v)
        if isinstance(v, SymStr):
            raise NeedConcrete(v.name)
        raise Unsupported("truth value of %r" % (v0,))

    def branch(s, st, c):
        """(can be true, can be false) of condition under pc"""
        r = as_py_bool(zbool(c))
        if r is not None:
            return r, not r
        c = zbool(c)
        t = feasible(st.pc, c)
        f = feasible(st.pc, z3.Not(c))
        if not t and not f:
            return False, False
        return t, f

    def stmt(s, n, st):
        m = getattr(s, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__)
        r = m(n, st)
        return [(st, None)] if r is None else r

    def s_Pass(s, n, st):
        pass

    def s_Expr(s, n, st):
        if isinstance(n.value, ast.Constant):
            return
        s.eval(n.value, st)

    def s_Import(s, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(s, n, st):
        mod = st.env["__mod__"]
        m = n.module or ""
        if n.level:
            m = ".".join(mod.dotted.split(".")[:-n.level] + ([m] if m else []))
        for a in n.names:
            st.env[a.asname or a.name] = Mod(m + "." + a.name)

    def s_FunctionDef(s, n, st):
        st.env[n.name] = UFn(st.env["__mod__"], n, st, n.decorator_list)

    def s_Assign(s, n, st):
        v = s.eval(n.value, st)
        for t in n.targets:
            s.assign(t, v, st)

    def s_AnnAssign(s, n, st):
        if n.value is not None:
            s.assign(n.target, s.eval(n.value, st), st)

    def assign(s, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = s.deref(st, v)
            if isinstance(v, tuple):
                items = list(v)
            elif isinstance(v, Lst) and v.items is not None:
                items = v.items
            elif isinstance(v, Arr) and as_py_int(v.shape[0]) is not None:
                items = [s.lib.index(v, [("int", i)], st) for i in range(as_py_int(v.shape[0]))]
            else:
                raise Unsupported("unpacking")
            if len(items) != len(t.elts):
                raise Unsupported("unpacking arity")
            for x, y in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    raise Unsupported("starred")
                s.assign(x, y, st)
        elif isinstance(t, ast.Subscript):
            base = s.eval(t.value, st)
            bv = s.deref(st, base)
            if isinstance(bv, Lst):
                k = s.eval(t.slice, st)
                s.write(st, base, s.list_set(st, bv, k, v))
            elif isinstance(bv, Arr):
                if bv.lib == "jnp":
                    raise Unsupported("item assignment on an immutable array")
                spec = s.index_spec(t.slice, st, bv)
                s.write(st, base, s.lib.store(bv, spec, s.deref(st, v), st, s))
            else:
                raise Unsupported("item assignment on %r" % (bv,))
        else:
            raise Unsupported("assignment target " + type(t).__name__)

    def s_AugAssign(s, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = s.name(t.id, st)
            rhs = s.eval(n.value, st)
            cv = s.deref(st, cur)
            if isinstance(cv, Lst):
                if not isinstance(n.op, ast.Add):
                    raise Unsupported("list aug")
                rv = s.deref(st, rhs)
                if not (isinstance(rv, Lst) and rv.items is not None) and not isinstance(rv, tuple):
                    raise Unsupported("list += ")
                for x in (rv.items if isinstance(rv, Lst) else rv):
                    s.lib.list_append(st, cur, x)
                return
            new = s.lib.binop(st, n.op, cur, rhs)
            if isinstance(cv, Arr) and cv.lib in ("np", "torch"):
                nv = s.deref(st, new)
                s.lib.check_inplace(st, cv, nv)
                shp = cv.shape
                s.write(st, cur, Arr(cv.lib, shp, cv.dtype, nv.elem))
            else:
                st.env[t.id] = new
        elif isinstance(t, ast.Subscript):
            base = s.eval(t.value, st)
            bv = s.deref(st, base)
            if isinstance(bv, Lst):
                k = s.eval(t.slice, st)
                cur = s.list_get(st, bv, k)
                rhs = s.eval(n.value, st)
                new = s.lib.binop(st, n.op, cur, rhs)
                s.write(st, base, s.list_set(st, bv, k, new))
            elif isinstance(bv, Arr):
                if bv.lib == "jnp":
                    raise Unsupported("item assignment on an immutable array")
                spec = s.index_spec(t.slice, st, bv)
                cur = s.lib.index(bv, spec, st)
                rhs = s.eval(n.value, st)
                new = s.deref(st, s.lib.binop(st, n.op, cur, rhs))
                bv = s.deref(st, base)
                s.write(st, base, s.lib.store(bv, spec, new, st, s))
            else:
                raise Unsupported("aug assignment")
        else:
            raise Unsupported("aug assignment target")

    def s_Return(s, n, st):
        v = s.eval(n.value, st) if n.value is not None else None
        return [(st, ("ret", v))]

    def s_Raise(s, n, st):
        name = "Exception"
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            name = ast.unparse(e)
        s.raise_(st, name)
        return []

    def s_Assert(s, n, st):
        c = s.truth(st, s.eval(n.test, st))
        c = zbool(c)
        s.asserts.append((list(st.pc), c, list(s.guardvars)))
        st.pc.append(c)

    def s_Break(s, n, st):
        return [(st, ("break",))]

    def s_Continue(s, n, st):
        return [(st, ("cont",))]

    def s_Delete(s, n, st):
        for t in n.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported("del")
            st.env.pop(t.id, None)

    def s_If(s, n, st):
        c = s.truth(st, s.eval(n.test, st))
        t, f = s.branch(st, c)
        if t and not f:
            return s.block(n.body, st)
        if f and not t:
            return s.block(n.orelse, st) if n.orelse else None
        if not t and not f:
            return []
        c = zbool(c)
        base = State({}, {}, list(st.pc))
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        oa = s.block(n.body, a)
        ob = s.block(n.orelse, b) if n.orelse else [(b, None)]
        fa = [o for o, sg in oa if sg is None]
        fb = [o for o, sg in ob if sg is None]
        out = [(o, sg) for o, sg in oa + ob if sg is not None]
        if len(fa) == 1 and len(fb) == 1 and not out:
            try:
                return [(s.merge_state(c, fa[0], fb[0], base), None)]
            except Unsupported:
                return [(fa[0], None), (fb[0], None)]
        return out + [(o, None) for o in fa + fb]

    # ------------------------------------------------------------ loops
    def s_While(s, n, st):
        # normalise  i = a; while i < b: ...; i += c   to a range loop
        raise Unsupported("while loop")

    def iter_spec(s, it, st):
        """-> (kind, data): ('items', [values]) or ('sym', lo, count, step, f(i)->value)"""
        if isinstance(it, tuple) and it and it[0] == "__range__":
            _, lo, hi, step = it
            sp = as_py_int(step)
            if sp is None or sp == 0:
                raise Unsupported("range step")
            l, h = as_py_int(lo), as_py_int(hi)
            if l is not None and h is not None and len(range(l, h, sp)) <= 12:
                return ("items", list(range(l, h, sp)))
            loz, hiz = zint(lo), zint(hi)
            if sp == 1:
                cnt = simp(hiz - loz)
            elif sp > 0:
                cnt = simp((hiz - loz + (sp - 1)) / sp)
            else:
                cnt = simp((loz - hiz + (-sp - 1)) / (-sp))
            return ("sym", loz, cnt, sp, lambda i: i)
        if isinstance(it, tuple) and it and it[0] == "__enum__":
            sub = s.iter_spec(it[1], st)
            start = it[2]
            if sub[0] == "items":
                return ("items", [(start + k if isinstance(start, int) else simp(zint(start) + k), x) for k, x in enumerate(sub[1])])
            _, lo, cnt, sp, f = sub
            return ("sym", lo, cnt, sp, lambda i: (simp(zint(start) + ((i - lo) if sp == 1 else (i - lo) / sp if sp > 0 else (lo - i) / (-sp))), f(i)))
        if isinstance(it, tuple) and it and it[0] == "__zip__":
            subs = [s.iter_spec(x, st) for x in it[1:]]
            if all(x[0] == "items" for x in subs):
                return ("items", [tuple(t) for t in zip(*[x[1] for x in subs])])
            if any(x[0] == "items" for x in subs):
                raise Unsupported("zip")
            q = subs[0]
            for x in subs[1:]:
                if not prove(st.pc, x[2] == q[2]):
                    raise Unsupported("zip of different lengths")
            lo, cnt, sp = q[1], q[2], q[3]

            def f(i):
                k = (i - lo) if sp == 1 else (i - lo) / sp
                out = []
                for x in subs:
                    out.append(x[4](simp(x[1] + k * x[3])))
                return tuple(out)
            return ("sym", lo, cnt, sp, f)
        v = s.deref(st, it)
        if s.is_dict(v):
            if v[0] == "__dict__":
                return ("items", list(v[1]))
            return ("sym", v[1], v[2], 1, lambda i: i)
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0].startswith("__"):
                raise Unsupported("iteration over " + v[0])
            return ("items", list(v))
        if isinstance(v, Lst):
            if isinstance(v, PLst):
                raise Unsupported("iteration over a list under modification")
            if v.items is not None:
                return ("items", list(v.items))
            def elem(i):
                x = s.list_get(s.ist or st, v, i)
                return ERef(it, zint(i)) if isinstance(it, Ref) and isinstance(x, Arr) and x.lib != "jnp" else x
            return ("sym", z3.IntVal(0), zint(v.n), 1, elem)
        if isinstance(v, Arr):
            n = as_py_int(v.shape[0])
            if n is not None and n <= 12:
                return ("items", [s.lib.index(v, [("int", i)], st) for i in range(n)])
            return ("sym", z3.IntVal(0), zint(v.shape[0]), 1, lambda i: s.lib.index(v, [("int", i)], s.ist or st))
        raise Unsupported("iteration over %r" % (v,))

    def s_For(s, n, st):
        if n.orelse:
            raise Unsupported("for-else")
        it = s.eval(n.iter, st)
        spec = s.iter_spec(it, st)
        if spec[0] == "items":
            cur = [st]
            done = []
            for x in spec[1]:
                nxt = []
                for c in cur:
                    s.assign(n.target, x, c)
                    for o, sig in s.block(n.body, c):
                        if sig is None or sig[0] == "cont":
                            nxt.append(o)
                        elif sig[0] == "break":
                            done.append((o, None))
                        else:
                            done.append((o, sig))
                cur = nxt
            return [(c, None) for c in cur] + done
        _, lo, cnt, sp, f = spec
        # is the loop surely empty?
        if not feasible(st.pc, cnt > 0):
            return None
        return s.sym_loop(n, st, lo, cnt, sp, f)

    def assigned_names(s, body, target):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(v, x):
                if isinstance(x.ctx, ast.Store):
                    names.add(x.id)

            def visit_FunctionDef(v, x):
                names.add(x.name)

            def visit_Lambda(v, x):
                pass

            def visit_ListComp(v, x):
                pass
        for b in body:
            V().visit(b)
        tn = set()
        V2 = V()
        old = set(names)
        names.clear()
        V2.visit(target)
        tn = set(names)
        names |= old
        return names - tn, tn

    def sym_loop(s, n, st, lo, cnt, sp, f):
        i = fresh_int("i")
        k_of = (i - lo) if sp == 1 else ((i - lo) / sp if sp > 0 else (lo - i) / (-sp))
        if sp == 1:
            rng = [i >= lo, i < lo + cnt]
        elif sp == -1:
            rng = [i <= lo, i > lo - cnt]
        else:
            rng = [(i - lo) % abs(sp) == 0, k_of >= 0, k_of < cnt]
        names, tnames = s.assigned_names(n.body, n.target)
        livein = {v for v in names if v in st.env}
        hmod = set()
        hinv = {}
        s.guardvars.append((i, rng))
        s.loop0.append(s.nid)
        PH.append(set())
        try:
            for attempt in range(8):
                PH[-1] = set()
                r = s.loop_body(n, st, i, rng, f, livein, hmod, hinv)
                if r[0] == "again":
                    hmod |= r[1]
                    continue
                # a list element rewritten by every iteration is loop-carried state
                new = {}
                for h, p in r[3].items():
                    o = r[1].heap[h]
                    if isinstance(p, PLst) and h not in hinv and isinstance(o, PLst) and o.stores:
                        w0 = o.stores[-1][0]
                        if not z_mentions(w0, i) and not z_has_ph(w0):
                            new[h] = w0
                if new:
                    hinv.update(new)
                    del s.obls[r[4][0]:], s.raises[r[4][1]:], s.asserts[r[4][2]:]
                    continue
                break
            else:
                raise Unsupported("loop effects do not stabilise")
            _, out, ph, hph, mark = r
            return s.loop_effect(n, st, i, rng, lo, cnt, sp, out, ph, hph, livein, names, tnames, mark)
        finally:
            s.guardvars.pop()
            s.loop0.pop()
            PH.pop()

    def loop_body(s, n, st, i, rng, f, livein, hmod, hinv={}):
        b = st.copy()
        b.pc += rng
        mark = (len(s.obls), len(s.raises), len(s.asserts))
        ph, hph = {}, {}
        for h in hmod:
            hph[h] = s.placeholder(b, "h%d" % h, b.heap[h], hinv.get(h))
            b.heap[h] = hph[h]
        for v in livein:
            cur = b.env[v]
            if isinstance(cur, (Ref,)):
                val = b.heap[cur.id]
                if cur.id in hmod:
                    # variable may be rebound or the object mutated; keep the reference
                    ph[v] = cur
                    continue
                if isinstance(val, Arr):
                    p = s.placeholder(b, v, val)
                    ph[v] = ("arr", p, cur)
                    b.env[v] = s.alloc(b, p)
                    ph[v] = ("arr", p, cur, b.env[v].id)
                else:
                    ph[v] = cur
                continue
            p = s.placeholder(b, v, cur)
            ph[v] = p
            b.env[v] = p
        s.ist = b
        it = f(i)
        s.ist = None
        s.assign(n.target, it, b)
        pre_heap = dict(b.heap)
        outs = s.block(n.body, b)
        fall = []
        for o, sig in outs:
            if sig is None or sig[0] == "cont":
                fall.append(o)
            else:
                raise Unsupported("break/return inside a symbolic loop")
        if not fall:
            raise Unsupported("loop body never completes")
        o = fall[0]
        for x in fall[1:]:
            c = z3.And(*x.pc[len(b.pc) if False else len(st.pc) + len(rng):]) if len(x.pc) > len(st.pc) + len(rng) else z3.BoolVal(True)
            o = s.merge_state(c, x, o, State({}, {}, st.pc + rng))
        new = set()
        for h, v in pre_heap.items():
            if h in st.heap and h not in hmod and o.heap.get(h) is not v:
                new.add(h)
        # a rebound array variable whose old object was mutated
        for v, p in ph.items():
            if isinstance(p, tuple) and p[0] == "arr" and o.heap.get(p[3]) is not p[1]:
                # in-place update of the object: treat the object itself as modified
                new.add(p[2].id)
        if new:
            del s.obls[mark[0]:], s.raises[mark[1]:], s.asserts[mark[2]:]
            return ("again", new)
        return ("ok", o, ph, hph, mark)

    def placeholder(s, st, name, v, inv=None):
        nm = "@%s!%d" % (name, next(_cnt2))
        PH[-1].add(nm)
        if isinstance(v, Arr):
            if v.dtype in ("i", "b"):
                return Arr(v.lib, v.shape, v.dtype, lambda *idx: (_ for _ in ()).throw(Unsupported("integer array modified in a loop")))
            return Arr(v.lib, v.shape, v.dtype, lambda *idx: A(nm, [zint(x) for x in idx], v.dtype in ("f", "f4")), tag=("ph", nm))
        if isinstance(v, Lst):
            p = PLst(v)
            if inv is not None:
                e = s.deep(st, s.list_get(st, v, inv))
                if not isinstance(e, Arr):
                    raise Unsupported("list element rewritten in a loop")
                p.rec["inv"] = (inv, s.placeholder(st, name + "e", e), e)
            return p
        if is_int(v):
            return z3.Int(nm)
        if is_boolv(v):
            return z3.Bool(nm)
        if isinstance(v, (T, float, complex)):
            return A(nm, (), is_real(lift(v)))
        if isinstance(v, tuple):
            return Garbage("tuple carried through a loop")
        return v

    def uses_placeholders(s, v, names):
        return False

    def loop_effect(s, n, st, i, rng, lo, cnt, sp, out, ph, hph, livein, names, tnames, mark):
        hyps0 = list(st.pc)
        final = st.copy()
        last = simp(lo + (cnt - 1) * sp)
        # facts established by the body that do not depend on the iteration state (asserts)
        ctx = dict(i=i, rng=rng, lo=lo, cnt=cnt, sp=sp, hyps=hyps0, last=last)
        # placeholders of integer counters must be resolved first
        subs = []
        for v, p in ph.items():
            if is_z3(p) and p.is_int() if is_z3(p) and z3.is_arith(p) else False:
                nv = out.env[v]
                if not is_int(nv):
                    continue
                nvz = zint(nv)
                if nvz.eq(p):
                    subs.append((p, zint(st.env[v])))
                    continue
                d = simp(nvz - p)
                if not z_mentions(d, p) and not z_mentions(d, i) and not any(z_mentions(d, q) for q in ph.values() if is_z3(q)):
                    k = (i - lo) if sp == 1 else ((i - lo) / sp if sp > 0 else (lo - i) / (-sp))
                    subs.append((p, simp(zint(st.env[v]) + d * k)))
                elif not z_mentions(nvz, p):
                    pass  # overwritten
        if subs:
            self_obls = s.obls[mark[0]:]
            for o in self_obls:
                o.hyps = [zsub(h, subs) for h in o.hyps]
                o.goal = zsub(o.goal, subs)
            out = State({k: (v if isinstance(v, (Ref, ERef, VRef, UFn)) else vsubst_safe(v, subs)) for k, v in out.env.items()},
                        {k: (v if v is st.heap.get(k) else vsubst_safe(v, subs)) for k, v in out.heap.items()},
                        [zsub(c, subs) for c in out.pc])
        ctx["body_pc"] = out.pc[len(st.pc):]
        allph = {}
        # arrays
        for h, p in hph.items():
            if isinstance(p, Arr):
                final.heap[h] = s.arr_effect(ctx, st.heap[h], p, out.heap[h], st)
            elif isinstance(p, PLst):
                final.heap[h] = s.lst_effect(ctx, st.heap[h], p, out, h, st)
            else:
                raise Unsupported("loop modifies heap value")
        for v in names:
            nv = out.env.get(v)
            if v in livein:
                p = ph[v]
                if isinstance(p, Ref):
                    if isinstance(nv, Ref) and nv.id == p.id:
                        continue
                    final.env[v] = Garbage("rebound in loop: " + v)
                    continue
                if isinstance(p, tuple) and p and p[0] == "arr":
                    if isinstance(nv, Ref) and nv.id == p[3]:
                        continue  # unchanged
                    nval = s.deref(out, nv)
                    if not isinstance(nval, Arr):
                        final.env[v] = Garbage("rebound in loop: " + v)
                        continue
                    final.env[v] = s.try_(lambda: s.alloc(final, s.arr_effect(ctx, st.heap[p[2].id], p[1], nval, st)), v)
                    continue
                old = st.env[v]
                if isinstance(p, Arr):
                    nval = s.deref(out, nv)
                    if nval is p:
                        continue
                    if not isinstance(nval, Arr):
                        final.env[v] = Garbage("rebound in loop: " + v)
                        continue
                    final.env[v] = s.try_(lambda: s.arr_effect(ctx, old, p, nval, st), v)
                    continue
                final.env[v] = s.try_(lambda: s.scalar_effect(ctx, old, p, nv, out, st), v)
            else:
                # assigned only inside: value of the last iteration
                final.env[v] = s.try_(lambda: s.last_value(ctx, nv, out, st, final), v)
        for v in tnames:
            final.env[v] = s.try_(lambda: s.last_value(ctx, out.env.get(v), out, st, final), v)
        # obligations inside the body may mention placeholders: they are universally
        # quantified over them, which is sound (stronger).
        return [(final, None)]

    def try_(s, f, v):
        try:
            return f()
        except (Unsupported, Undecided) as e:
            return Garbage("%s: %s" % (v, e))

    def has_ph(s, t):
        hit = []
        if isinstance(t, T):
            walk_atoms(t, lambda a: hit.append(a) if a.name in PH[-1] else None)
            return bool(hit) or t_has_zph(t)
        return z_has_ph(t)

    def last_value(s, ctx, nv, out, st, final):
        if nv is None or isinstance(nv, (str, Lib, Mod, UFn, SymStr)):
            return nv
        v = s.deep(out, nv)
        if not prove(ctx["hyps"], ctx["cnt"] > 0):
            raise Unsupported("variable may be unassigned after loop")
        if isinstance(v, Arr):
            v = vsubst(v, [(ctx["i"], ctx["last"])])
            idx = [fresh_int("p") for _ in v.shape]
            if s.has_ph(v.elem(*idx)):
                raise Unsupported("last value depends on the loop state")
            return s.wrap(final, v)
        v = vsubst(v, [(ctx["i"], ctx["last"])])
        if s.has_ph_val(v):
            raise Unsupported("last value depends on the loop state")
        return s.wrap(final, v)

    def has_ph_val(s, v):
        if isinstance(v, T) or is_z3(v):
            return s.has_ph(v)
        if isinstance(v, tuple):
            return any(s.has_ph_val(x) for x in v)
        if isinstance(v, Kern):
            return any(s.has_ph_val(x) for x in v.params.values())
        if isinstance(v, (Lst, Garbage)):
            return True
        return False

    def scalar_effect(s, ctx, old, p, nv, out, st):
        i, rng, lo, cnt, sp = ctx["i"], ctx["rng"], ctx["lo"], ctx["cnt"], ctx["sp"]
        if nv is p:
            return old
        nv = s.deep(out, nv)
        if is_int(p):
            if not is_int(nv):
                if is_num(nv) and not s.has_ph(lift(nv)):
                    return ite(cnt > 0, vsubst(lift(nv), [(i, ctx["last"])]), lift(old))
                raise Unsupported("integer variable changes type in loop")
            nvz = zint(nv)
            if nvz.eq(p):
                return old
            d = simp(nvz - p)
            if not z_has_ph(nvz):
                v = zsub(nvz, [(i, ctx["last"])])
                return v if prove(ctx["hyps"], cnt > 0) else z3.If(cnt > 0, v, zint(old))
            # counter (placeholder may already be replaced)
            nd = simp(zsub(nvz, [(i, ctx["last"])]))
            if not z_has_ph(nd):
                return nd if prove(ctx["hyps"], cnt > 0) else z3.If(cnt > 0, nd, zint(old))
            if not z_has_ph(d) and not z_mentions(d, i):
                return simp(zint(old) + d * z3.If(cnt > 0, cnt, 0)) if not prove(ctx["hyps"], cnt >= 0) else simp(zint(old) + d * cnt)
            raise Unsupported("integer recurrence")
        if isinstance(p, T):
            nv = lift(nv)
            if not s.has_ph(nv):
                v = tsubst(nv, [(i, ctx["last"])])
                return v if prove(ctx["hyps"], cnt > 0) else ite(cnt > 0, v, lift(old))
            leaves = s.leaves(nv, ctx["hyps"] + rng + ctx["body_pc"])
            if any(z_has_ph(y) for g, x in leaves for y in g):
                raise Unsupported("branch on the loop-carried value")
            # accumulation
            ds = []
            for g, x in leaves:
                d = split_add(x, p.name)
                if d is None or s.has_ph(d):
                    ds = None
                    break
                ds.append((g, d))
            if ds is not None:
                body = ZERO
                for g, d in ds:
                    body = add(body, ite(z3.And(*g) if g else z3.BoolVal(True), d, ZERO))
                return add(lift(old), mk_sum(i, z3.And(*rng), body))
            ds = []
            for g, x in leaves:
                d = split_mul(x, p.name)
                if d is None or s.has_ph(d):
                    ds = None
                    break
                ds.append((g, d))
            if ds is not None and sp == 1:
                body = ONE
                for g, d in ds:
                    body = mul(body, ite(z3.And(*g) if g else z3.BoolVal(True), d, ONE))
                return mul(lift(old), mk_prod(i, lo, lo + cnt, body))
            raise Unsupported("recurrence")
        if isinstance(p, PLst):
            raise Unsupported("list rebound in loop")
        if nv is old or (isinstance(nv, (str, type(None))) and nv == old):
            return old
        raise Unsupported("loop-carried value")

    def leaves(s, t, hyps, acc=()):
        """Split top-level choices: [(guards, leaf)]"""
        t = reduce_ites(t, list(hyps) + list(acc))
        g = first_guard(t)
        if g is None:
            return [(list(acc), t)]
        r = []
        for val in (True, False):
            gg = g if val else z3.Not(g)
            if feasible(list(hyps) + list(acc) + [gg]):
                r += s.leaves(assume(t, g, val), hyps, list(acc) + [gg])
            if len(r) > 200:
                raise Unsupported("too many cases in a loop body")
        return r

    def arr_effect(s, ctx, old, ph, new, st):
        i, rng, lo, cnt, sp = ctx["i"], ctx["rng"], ctx["lo"], ctx["cnt"], ctx["sp"]
        if new is ph:
            return old
        if len(new.shape) != len(old.shape) or not all(same_z(x, y, ctx["hyps"] + rng) for x, y in zip(new.shape, old.shape)):
            raise Unsupported("array changes shape in loop")
        nm = ph.tag[1]
        p = [fresh_int("p") for _ in old.shape]
        inb = []
        for x, d in zip(p, old.shape):
            inb += [x >= 0, x < zint(d)]
        hyps = ctx["hyps"] + inb
        hyps_i = hyps + rng + ctx["body_pc"]
        t = lift(new.elem(*p))
        lv = s.leaves(t, hyps_i)
        changed = []
        for g, x in lv:
            if isinstance(x, A) and x.name == nm and all(same_z(a, b, hyps_i + g) for a, b in zip(x.args, p)):
                continue
            changed.append((g, x))
        oe = old.elem
        for g, x in lv:
            if any(z_has_ph(y) for y in g):
                raise Unsupported("branch on the loop-carried array")
        if not changed:
            return Arr(old.lib, old.shape, new.dtype, oe)
        # guards are conjunctions; keep the body path condition parts that matter out: body_pc holds for every i in range
        def at(gs, e):
            return [zsub(x, [(i, e)]) for x in gs]
        # accumulation?
        acc = []
        for g, x in changed:
            d = split_add(x, nm, p, hyps_i + g)
            if d is None or s.has_ph(d):
                acc = None
                break
            acc.append((g, d))
        if acc is not None:
            # one-point rule where the writer is unique, else a genuine sum
            parts = []
            for g, d in acc:
                sol = solve_for(g + rng, i, hyps)
                if sol is not None:
                    cond = z3.And(*(at(g, sol) + at(rng, sol)))
                    parts.append(("pt", cond, tsubst(d, [(i, sol)])))
                else:
                    parts.append(("sum", z3.And(*(g + rng)), d))

            def elem(*idx, parts=parts):
                pr = list(zip(p, [zint(x) for x in idx]))
                r = lift(oe(*idx))
                for k, c, d in parts:
                    c2, d2 = zsub(c, pr), tsubst(d, pr)
                    if k == "pt":
                        r = add(r, ite(c2, d2, ZERO))
                    else:
                        r = add(r, mk_sum(i, c2, d2))
                return r
            return Arr(old.lib, old.shape, new.dtype, elem)
        # stores: resolve reads of the array being written
        i2 = fresh_int("i")

        def before(a, b):  # iteration a strictly before b
            return (a < b) if sp > 0 else (a > b)
        res = []
        for g, x in changed:
            def rep(a, g=g):
                if a.name != nm:
                    return a
                # no earlier iteration writes a.args
                for g2, _ in changed:
                    pr = list(zip(p, a.args))
                    # the guards of iteration i2 at position a.args; rename p simultaneously
                    w = [zsub(y, pr + [(i, i2)]) for y in g2]
                    q = hyps_i + g + [zsub(y, [(i, i2)]) for y in rng] + w + [before(i2, i)]
                    if check(q) != "unsat":
                        raise Unsupported("loop reads elements written by earlier iterations")
                v = lift(oe(*a.args))
                return conj(v) if a.cj else v
            x2 = map_atoms(x, rep)
            if s.has_ph(x2):
                raise Unsupported("loop-carried array value")
            res.append((g, x2))
        # unique writer across iterations
        parts = []
        for a, (g, x) in enumerate(res):
            sol = solve_for(g + rng, i, hyps)
            if sol is None:
                # same guard in all iterations: last writer wins
                if not any(z_mentions(c, i) for c in g):
                    if len(res) == 1 or True:
                        parts.append((z3.And(*(g + [cnt > 0])) if g else cnt > 0, tsubst(x, [(i, ctx["last"])]), None))
                        if len(res) > 1:
                            raise Unsupported("several writers")
                        continue
                raise Unsupported("no unique writer in loop")
            parts.append((z3.And(*(at(g, sol) + at(rng, sol))), tsubst(x, [(i, sol)]), sol))
        for a in range(len(res)):
            for b in range(a + 1, len(res)):
                ga = res[a][0] + rng
                gb = [zsub(y, [(i, i2)]) for y in res[b][0] + rng]
                if check(hyps + ga + gb) != "unsat":
                    raise Unsupported("several iterations write the same element")

        def elem(*idx, parts=parts):
            pr = list(zip(p, [zint(x) for x in idx]))
            r = lift(oe(*idx))
            for c, x, _ in parts:
                r = ite(zsub(c, pr), tsubst(x, pr), r)
            return r
        return Arr(old.lib, old.shape, new.dtype, elem)

    def lst_effect(s, ctx, old, ph, out, h, st):
        i, rng, lo, cnt, sp = ctx["i"], ctx["rng"], ctx["lo"], ctx["cnt"], ctx["sp"]
        new = out.heap[h]
        if not isinstance(new, PLst):
            raise Unsupported("list replaced in loop")
        if new.base is not ph.base:
            raise Unsupported("list replaced in loop")
        if new.app and new.stores:
            raise Unsupported("append and store in one loop")
        if prove(ctx["hyps"], cnt >= 0):
            c = cnt
        else:
            c = z3.If(cnt > 0, cnt, z3.IntVal(0))
        if new.app:
            per = len(new.app)
            vals = []
            for v in new.app:
                v = s.deep(out, v)
                if s.val_has_ph(v):
                    raise Unsupported("appended value depends on the loop state")
                vals.append(v)
            n0 = zint(old.length())
            o = old

            def get(k):
                kz = zint(k)
                q = simp((kz - n0) / per) if per > 1 else simp(kz - n0)
                it = simp(lo + q * sp)
                r = vsubst(vals[0], [(i, it)])
                for e in range(1, per):
                    r = s.merge_val(st, st, st, (kz - n0) % per == e, vsubst(vals[e], [(i, it)]), r)
                if as_py_int(n0) == 0:
                    return r
                return s.merge_val(st, st, st, kz >= n0, r, s.list_get(st, o, k))
            return Lst(n=simp(n0 + per * c), get=get)
        if not new.stores:
            return old
        # stores: one index per iteration
        w0 = new.stores[-1][0]
        for w, v in new.stores[:-1]:
            if not prove(ctx["hyps"] + rng, w == w0):
                raise Unsupported("several list elements written per iteration")
        val = s.deep(out, new.stores[-1][1])
        if "inv" in ph.rec:
            w, pe, oe = ph.rec["inv"]
            if not prove(ctx["hyps"] + rng, zint(w) == w0):
                raise Unsupported("several list elements written")
            if not isinstance(val, Arr):
                raise Unsupported("list element changes type in a loop")
            return s.list_set(State(st.env, st.heap, list(st.pc)), old, w, s.arr_effect(ctx, oe, pe, val, st))
        if s.val_has_ph(val):
            raise Unsupported("stored value depends on the loop state")
        li = linear_in(w0, i)
        if li is None:
            raise Unsupported("list index not linear in the loop variable")
        i2 = fresh_int("i")
        for r, pc in ph.rec["reads"]:
            q = pc + [zsub(y, [(i, i2)]) for y in rng] + [i2 != i, zsub(w0, [(i, i2)]) == r]
            if check(q) != "unsat":
                raise Unsupported("loop reads list elements written by other iterations")
        a, b = li
        o = old

        def get(k):
            kz = zint(k)
            if a in (1, -1):
                it = simp((kz - b) * a)
                g = rng
            else:
                it = (kz - b) / a if a > 0 else (b - kz) / (-a)
                g = rng + [(kz - b) % abs(a) == 0]
            cond = z3.And(*[zsub(y, [(i, it)]) for y in g])
            nvl = vsubst(val, [(i, it)])
            if prove(ctx["hyps"] + [kz >= 0, kz < zint(s.plen(o))], cond):
                return nvl
            return s.merge_val(st, st, st, cond, nvl, s.list_get(st, o, k))
        if isinstance(o, PLst):
            raise Unsupported("list written across nested loops")
        return Lst(n=o.length(), get=get)

    def val_has_ph(s, v):
        if isinstance(v, Arr):
            idx = [fresh_int("p") for _ in v.shape]
            return s.has_ph(v.elem(*idx)) or any(z_has_ph(x) for x in v.shape if is_z3(x))
        if isinstance(v, tuple):
            return any(s.val_has_ph(x) for x in v)
        if isinstance(v, Lst):
            if isinstance(v, PLst):
                return True
            if v.items is not None:
                return any(s.val_has_ph(x) for x in v.items)
            return False
        if isinstance(v, Garbage):
            return True
        if isinstance(v, T) or is_z3(v):
            return s.has_ph(v)
        if isinstance(v, Kern):
            return any(is_z3(x) and z_has_ph(x) for x in v.params.values())
        return False

    # ------------------------------------------------------------ expressions
    def name(s, n, st):
        if n in st.env:
            v = st.env[n]
            if isinstance(v, Garbage):
                raise Unsupported("use of undefined value: " + v.why)
            return s.resolve(v) if isinstance(v, Mod) else v
        c = st.env.get("__closure__")
        while c is not None:
            if n in c.env:
                return c.env[n]
            c = c.env.get("__closure__")
        mod = st.env["__mod__"]
        if n in mod.globals:
            return s.resolve(mod.globals[n])
        if n in mod.lazy:
            return s.lazy_global(mod, n)
        if n in ("range", "len", "min", "max", "abs", "enumerate", "zip", "str", "int", "float", "complex", "sum", "list", "tuple",
                 "round", "reversed", "isinstance", "print", "dict", "bool", "any", "all", "sorted", "pow", "divmod", "map", "ValueError", "slice"):
            return Lib("builtins." + n)
        raise Unsupported("unknown name " + n)

    def eval(s, n, st):
        m = getattr(s, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, st)

    def e_Constant(s, n, st):
        v = n.value
        if isinstance(v, float):
            return lift(v)
        if isinstance(v, complex):
            return lift(v)
        return v

    def e_Name(s, n, st):
        return s.name(n.id, st)

    def e_Tuple(s, n, st):
        return tuple(s.eval_items(n.elts, st))

    def eval_items(s, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = s.deref(st, s.eval(e.value, st))
                if isinstance(v, tuple):
                    out += list(v)
                elif isinstance(v, Lst) and v.items is not None:
                    out += v.items
                else:
                    raise Unsupported("starred")
            else:
                out.append(s.eval(e, st))
        return out

    def e_List(s, n, st):
        return s.alloc(st, Lst(items=s.eval_items(n.elts, st)))

    def e_JoinedStr(s, n, st):
        return OpaqueStr()

    def e_IfExp(s, n, st):
        c = s.truth(st, s.eval(n.test, st))
        t, f = s.branch(st, c)
        if t and not f:
            return s.eval(n.body, st)
        if f and not t:
            return s.eval(n.orelse, st)
        c = zbool(c)
        base = State({}, {}, list(st.pc))
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        a.env["__v"] = s.eval(n.body, a)
        b.env["__v"] = s.eval(n.orelse, b)
        m = s.merge_state(c, a, b, base)
        v = m.env.pop("__v")
        st.env.clear(); st.env.update(m.env)
        st.heap.clear(); st.heap.update(m.heap)
        st.pc[:] = m.pc
        if isinstance(v, Garbage):
            raise Unsupported("conditional expression: " + v.why)
        return v

    def e_BoolOp(s, n, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        sub = st
        pc0 = list(st.pc)
        for e in n.values:
            c = s.truth(st, s.eval(e, st))
            r = as_py_bool(zbool(c))
            if r is None:
                t, f = s.branch(st, c)
                if not f:
                    r = True
                elif not t:
                    r = False
            if r is not None:
                if r != isand:
                    vals.append(z3.BoolVal(r))
                    break
                continue
            c = zbool(c)
            vals.append(c)
            st.pc.append(c if isand else z3.Not(c))
        st.pc[:] = pc0
        if not vals:
            return isand
        e = (z3.And(*vals) if isand else z3.Or(*vals)) if len(vals) > 1 else vals[0]
        r = as_py_bool(e)
        return e if r is None else r

    def e_UnaryOp(s, n, st):
        v = s.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            c = s.truth(st, v)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return s.lib.binop(st, ast.Mult(), -1, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return s.lib.invert(st, v)
        raise Unsupported("unary")

    def e_BinOp(s, n, st):
        a = s.eval(n.left, st)
        b = s.eval(n.right, st)
        return s.lib.binop(st, n.op, a, b)

    def e_Compare(s, n, st):
        left = s.eval(n.left, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = s.eval(rn, st)
            c = s.lib.compare(st, op, left, right)
            if res is None:
                res = c
            elif isinstance(res, bool) and isinstance(c, bool):
                res = res and c
            else:
                if not is_boolv(res) or not is_boolv(c):
                    raise Unsupported("chained comparison of arrays")
                res = z3.And(zbool(res), zbool(c))
            left = right
        return res

    def e_Lambda(s, n, st):
        return UFn(st.env["__mod__"], n, st)

    def e_Attribute(s, n, st):
        v = s.eval(n.value, st)
        if isinstance(v, Mod):
            return s.resolve(Mod(v.name + "." + n.attr))
        return s.lib.attr(st, v, n.attr)

    def e_Call(s, n, st):
        f = s.eval(n.func, st)
        args = s.eval_items(n.args, st)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = s.deref(st, s.eval(k.value, st))
                if not (s.is_dict(d) and d[0] == "__dict__" and all(isinstance(x, str) for x in d[1])):
                    raise Unsupported("**kwargs")
                kw.update(zip(d[1], d[2]))
                continue
            kw[k.arg] = s.eval(k.value, st)
        return s.call(st, f, args, kw)

    def e_Starred(s, n, st):
        raise Unsupported("starred")

    def e_NamedExpr(s, n, st):
        v = s.eval(n.value, st)
        s.assign(n.target, v, st)
        return v

    def e_Slice(s, n, st):
        g = lambda x: None if x is None else s.eval(x, st)
        return ("__slice__", g(n.lower), g(n.upper), g(n.step))

    def e_ListComp(s, n, st):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported("comprehension")
        g = n.generators[0]
        it = s.eval(g.iter, st)
        spec = s.iter_spec(it, st)
        saved = dict(st.env)
        try:
            if spec[0] == "items":
                out = []
                for x in spec[1]:
                    s.assign(g.target, x, st)
                    out.append(s.eval(n.elt, st))
                return s.alloc(st, Lst(items=out))
            _, lo, cnt, sp, f = spec
            i = fresh_int("i")
            if sp == 1:
                rng = [i >= lo, i < lo + cnt]
            else:
                k_of = (i - lo) / sp if sp > 0 else (lo - i) / (-sp)
                rng = [(i - lo) % abs(sp) == 0, k_of >= 0, k_of < cnt]
            sub = st.copy()
            sub.pc += rng
            s.guardvars.append((i, rng))
            s.ist = sub
            it = f(i)
            s.ist = None
            s.assign(g.target, it, sub)
            hb = dict(sub.heap)
            n0 = s.nid
            x = s.eval(n.elt, sub)
            s.freeze(x)
            v = s.deep(sub, x)
            if isinstance(x, Ref) and x.id <= n0 and isinstance(v, Arr) and v.lib != "jnp":
                v = v.dup(v.mem() | {"shared"})
            s.guardvars.pop()
            for h, x in hb.items():
                if sub.heap.get(h) is not x:
                    raise Unsupported("side effect in comprehension")
            nn = cnt if prove(st.pc, cnt >= 0) else z3.If(cnt > 0, cnt, z3.IntVal(0))
            return s.alloc(st, Lst(n=nn, get=lambda k: vsubst(v, [(i, simp(lo + zint(k) * sp))])))
        finally:
            st.env.clear()
            st.env.update(saved)

    e_GeneratorExp = e_ListComp

    # dictionaries are immutable values here: tagged tuples with constant keys, or with the keys of a range
    def e_Dict(s, n, st):
        ks = []
        for k in n.keys:
            if k is None:
                raise Unsupported("** in a dictionary")
            k = s.eval(k, st)
            k = k if isinstance(k, str) else as_py_int(k)
            if k is None or isinstance(k, bool):
                raise Unsupported("dictionary key")
            ks.append(k)
        return ("__dict__", tuple(ks), tuple(s.frz(s.eval(v, st)) for v in n.values))

    def frz(s, v):
        s.freeze(v)
        return v

    def e_DictComp(s, n, st):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported("comprehension")
        g = n.generators[0]
        if not (isinstance(n.key, ast.Name) and isinstance(g.target, ast.Name) and n.key.id == g.target.id):
            raise Unsupported("dictionary comprehension")
        spec = s.iter_spec(s.eval(g.iter, st), st)
        vals = s.e_ListComp(ast.ListComp(elt=n.value, generators=n.generators), st)
        if spec[0] == "items":
            if not all(isinstance(k, (int, str)) for k in spec[1]):
                raise Unsupported("dictionary key")
            return ("__dict__", tuple(spec[1]), tuple(s.frz(x) for x in st.heap[vals.id].items))
        _, lo, cnt, sp, f = spec
        i = fresh_int("i")
        k = f(i)
        if sp != 1 or not is_int(k) or not prove(st.pc, zint(k) == i):
            raise Unsupported("dictionary comprehension")
        return ("__rdict__", lo, cnt, vals)

    def dict_get(s, st, d, k, dflt=None):
        if d[0] == "__rdict__":
            k = simp(zint(k) - d[1])
            s.oblige(st, "key in the dictionary", z3.And(k >= 0, k < d[2]))
            v = s.list_get(st, s.deref(st, d[3]), k)
            if isinstance(v, Arr) and v.lib in ("np", "torch") or isinstance(v, Lst):
                return ERef(d[3], k)
            return v
        if isinstance(k, SymStr):
            raise NeedConcrete(k.name)
        kk = k if isinstance(k, str) else as_py_int(k)
        if kk is None:
            raise Unsupported("symbolic dictionary key")
        if kk in d[1]:
            return d[2][len(d[1]) - 1 - d[1][::-1].index(kk)]
        if dflt is not None:
            return dflt[0]
        s.raise_(st, "KeyError")
        raise Unsupported("key not in the dictionary")

    def is_dict(s, v):
        return isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], str) and v[0] in ("__dict__", "__rdict__")

    def e_Subscript(s, n, st):
        base = s.eval(n.value, st)
        bv = s.deref(st, base) if not isinstance(base, Bound) else base
        if isinstance(bv, Bound) and bv.kind == "at":
            arr = bv.obj
            spec = s.index_spec(n.slice, st, arr)
            return Bound("at_idx", arr, spec)
        if s.is_dict(bv):
            return s.dict_get(st, bv, s.eval(n.slice, st))
        if isinstance(bv, tuple):
            if bv and isinstance(bv[0], str) and bv[0].startswith("__"):
                raise Unsupported("subscript of " + bv[0])
            k = s.eval(n.slice, st)
            if isinstance(k, tuple) and k and k[0] == "__slice__":
                a, b, c = [as_py_int(x) if x is not None else None for x in k[1:]]
                return bv[slice(a, b, c)]
            kk = as_py_int(k)
            if kk is None:
                raise Unsupported("symbolic tuple index")
            if not -len(bv) <= kk < len(bv):
                raise Unsupported("tuple index out of range")
            return bv[kk]
        if isinstance(bv, Lst):
            k = s.eval(n.slice, st)
            if isinstance(k, tuple) and k and k[0] == "__slice__":
                return s.alloc(st, s.lib.list_slice(st, bv, k))
            v = s.list_get(st, bv, k)
            if isinstance(v, Arr) and v.lib in ("np", "torch"):
                return ERef(base, k) if isinstance(base, (Ref, ERef)) else s.wrap(st, v)
            if isinstance(v, Lst):
                return ERef(base, k)
            return v
        if isinstance(bv, Arr):
            spec = s.index_spec(n.slice, st, bv)
            if bv.lib in ("np", "torch") and isinstance(base, (Ref, ERef, VRef)) and all(x[0] in ("int", "slice", "new") for x in spec):
                if all(x[0] == "int" for x in spec) and len(spec) == len(bv.shape):
                    return s.lib.index(bv, spec, st)
                return VRef(base, spec)
            return s.wrap(st, s.lib.index(bv, spec, st))
        if isinstance(bv, (Kern,)):
            raise Unsupported("indexing a kernel")
        raise Unsupported("subscript of %r" % (bv,))

    def index_spec(s, node, st, arr):
        raw = s.eval(node, st)
        if isinstance(raw, tuple) and raw and isinstance(raw[0], str) and raw[0] == "__slice__":
            raw = (raw,)
        elif not isinstance(raw, tuple):
            raw = (raw,)
        return s.lib.norm_spec(st, arr, raw)


_cnt2 = itertools.count()


def vsubst_safe(v, pairs):
    try:
        return vsubst(v, pairs)
    except Unsupported:
        return Garbage("value under modification")


PH = [set()]  # names standing for the loop-carried state, innermost loop last


def z_has_ph(e):
    if not is_z3(e):
        return False
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in PH[-1]:
            return True
        if z3.is_app(x) and x.num_args() and x.decl().name().startswith(("r_@", "nz_@")) and x.decl().name().split("_", 1)[1] in PH[-1]:
            return True
        st.extend(x.children())
    return False


def t_has_zph(t):
    if isinstance(t, Z):
        return z_has_ph(t.e)
    if isinstance(t, A):
        if any(is_z3(a) and z_has_ph(a) for a in t.args):
            return True
        if t.op is not None:
            if any(is_z3(x) and z_has_ph(x) for x in t.op.params.values()):
                return True
            q = t.op._probe()
            if q is None:
                return True
            if isinstance(q, T):
                hit = []
                walk_atoms(q, lambda a: hit.append(a) if a.name in PH[-1] else None)
                return bool(hit) or t_has_zph(q)
        return False
    if isinstance(t, (Add, Mul)):
        return any(t_has_zph(x) for x in t.ts)
    if isinstance(t, Pow):
        return t_has_zph(t.b)
    if isinstance(t, Ite):
        return z_has_ph(t.g) or t_has_zph(t.a) or t_has_zph(t.b)
    if isinstance(t, Sum):
        return z_has_ph(t.g) or t_has_zph(t.body)
    if isinstance(t, Prod):
        return z_has_ph(t.lo) or z_has_ph(t.hi) or t_has_zph(t.body)
    if isinstance(t, Fn):
        return any(t_has_zph(x) for x in t.args)
    return False


def is_ph_atom(x, nm, p=None, hyps=None):
    return isinstance(x, A) and x.name == nm and not x.cj and (p is None or all(same_z(a, b, hyps) for a, b in zip(x.args, p)))


def split_add(x, nm, p=None, hyps=None):
    """x == @nm(p) + d  ->  d"""
    if is_ph_atom(x, nm, p, hyps):
        return ZERO
    if isinstance(x, Add):
        hit = [k for k, y in enumerate(x.ts) if is_ph_atom(y, nm, p, hyps)]
        if len(hit) == 1:
            r = ZERO
            for k, y in enumerate(x.ts):
                if k != hit[0]:
                    r = add(r, y)
            return r
    return None


def split_mul(x, nm):
    if is_ph_atom(x, nm):
        return ONE
    if isinstance(x, Mul):
        hit = [k for k, y in enumerate(x.ts) if is_ph_atom(y, nm)]
        if len(hit) == 1:
            r = ONE
            for k, y in enumerate(x.ts):
                if k != hit[0]:
                    r = mul(r, y)
            return r
    return None


def same_any(a, b):
    if a is b:
        return True
    if is_z3(a) or is_z3(b):
        if a is None or b is None or isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return False
        return same_z(a, b, [])
    return a == b


ORDER = {"b": 0, "i": 1, "f4": 2, "f": 3, "c8": 4, "c": 5, "any": 6}


def jdtype(a, b):
    if {a, b} == {"f", "c8"}:
        return "c"
    return a if ORDER[a] >= ORDER[b] else b
