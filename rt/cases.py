"""Concrete cases per property: a fixed core, seeded random ones, and directed ones (verifier models, literals of the source)."""
import ast, glob, os, random, warnings
from fractions import Fraction

SAMP = ("mw", "mwss", "dh", "gl")
FAMS = ("looped", "base", "jax", "c", "pre", "torch")
CORE = [(4, 1, 0, 2.0), (5, 2, 0, 2.0), (6, 3, 1, 2.0), (8, 3, 0, 2.0), (8, 4, 1, 2.0), (7, 5, 1, 2.0), (9, 2, 2, 2.0), (10, 5, 2, 2.0),
        (5, 5, 0, 3.0), (9, 4, 1, 3.0), (10, 3, 0, 3.0), (7, 2, 0, 1.5), (9, 3, 2, 1.5), (11, 2, 1, 2.5), (6, 6, 1, 2.0), (2, 1, 0, 2.0),
        (2, 2, 0, 2.0), (3, 2, 0, 2.0), (3, 3, 0, 2.0), (12, 4, 2, 2.0), (7, 1, 1, 4.0), (10, 2, 0, 5.0), (16, 3, 3, 2.0), (13, 6, 2, 2.0)]


def jmax(L, lam):
    J, x = 0, Fraction(1)
    while x < L:
        x *= Fraction(lam)
        J += 1
    return J


def dom(L, N, J_min, lam):
    return L >= 2 and 1 <= N <= L and lam > 1 and 0 <= J_min < jmax(L, lam)


def rnd_cfg(r, Lmax=12):
    while True:
        L = r.randint(2, Lmax)
        lam = r.choice([2.0, 2.0, 2.0, 3.0, 1.5, 2.5, 4.0, 1.7, 1.3, 6.0])
        J = jmax(L, lam)
        if J < 1:
            continue
        N = r.choice([r.randint(1, L), r.randint(1, min(L, 4)), L])
        J_min = r.choice([0, r.randint(0, J - 1), J - 1])
        return L, N, J_min, lam


def spins(r, L):
    s = r.choice([0, 0, 0, 1, -1, 2, -2, r.randint(-L + 1, L - 1)])
    return s if abs(s) < L else 0


def transform_cfgs(r, n, Lmax=12, core=CORE):
    """configurations with all flags chosen"""
    out = []
    base = [c for c in core if dom(*c)] + [rnd_cfg(r, Lmax) for _ in range(n)]
    for i, (L, N, J_min, lam) in enumerate(base):
        s = SAMP[(i + r.randint(0, 3)) % 4]
        sp = spins(r, L)
        re = sp == 0 and r.random() < 0.5
        out.append(dict(L=L, N=N, J_min=J_min, lam=lam, spin=sp, spin0=0, sampling=s, reality=re, seed=r.randint(1, 10 ** 6)))
    return out


def literals(repo="/repo"):
    """numbers that the source compares with, beyond those of the pinned source"""
    ints = set()
    for p in glob.glob(os.path.join(repo, "s2wav", "**", "*.py"), recursive=True):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                t = ast.parse(open(p).read())
        except SyntaxError:
            continue
        for n in ast.walk(t):
            for k in ast.walk(n) if isinstance(n, (ast.Compare, ast.IfExp)) or (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod)) else ():
                if isinstance(k, ast.Constant) and isinstance(k.value, (int, float)) and not isinstance(k.value, bool) and 2 < k.value <= 300 and k.value == int(k.value):
                    ints.add(int(k.value))
    return sorted(ints)


def lit_cfgs(lits, Lcap):
    out = []
    for c in lits:
        for L in (c, c + 1, c - 1, 2 * c):
            for lam in (2.0, 3.0):
                if 2 <= L <= Lcap:
                    J = jmax(L, lam)
                    for N in {1, 2, 3, min(c, L), min(c + 1, L)}:
                        for Jm in {0, J - 1, min(c, J - 1)}:
                            if dom(L, N, Jm, lam):
                                out.append(dict(L=L, N=N, J_min=Jm, lam=lam))
        for L in (8, 12, 16):
            for N in {c, c + 1} if c + 1 <= L else {c} if c <= L else ():
                if dom(L, N, 1, 2.0):
                    out.append(dict(L=L, N=N, J_min=1, lam=2.0))
    return out


def transform_cases(prop, r, tier, directed, lits, fams=None):
    n = {"quick": 4, "thorough": 60}[tier]
    cfgs = []
    cfgs += directed
    lc = [dict(c, spin=spins(r, c["L"]), sampling=r.choice(SAMP)) for c in lit_cfgs(lits, 24)]
    r.shuffle(lc)
    cfgs += lc[:16]
    core = transform_cfgs(r, n, 12 if tier == "quick" else 20)
    if tier == "quick":
        fixed, rest = core[:len(CORE)], core[len(CORE):]
        r.shuffle(fixed)
        core = fixed[:16] + rest
    cfgs += core
    out = []
    for c in cfgs:
        for fam in fams or FAMS:
            if c.get("fam") and c["fam"] != fam:
                continue
            d = dict(c, fam=fam)
            if fam in ("looped", "base"):
                d.setdefault("multi", r.random() < 0.6)
                if prop in ("C06", "C07") and not d.get("spin0") and r.random() < 0.4:
                    s0 = r.choice([1, -1, 2, -2])
                    d["spin0"] = s0 if abs(s0) < d["L"] else 0
            if fam == "jax":
                d.setdefault("given", r.random() < 0.7)
            out.append(dict(prop=prop, case=d))
            if prop in ("C06", "C07") and fam in ("looped", "base") and not c.get("fam"):
                out.append(dict(prop=prop, case=dict(d, multi=not d["multi"])))
    return out


def filter_cfgs(r, tier, directed, lits, Lmax=40):
    n = {"quick": 14, "thorough": 200}[tier]
    out = [dict(x, jax=True) for x in directed]
    lc = lit_cfgs(lits, 130)
    r.shuffle(lc)
    out += [dict(c, jax=i < 30) for i, c in enumerate(lc[:60])]
    for i, (L, N, J_min, lam) in enumerate(CORE):
        out.append(dict(L=L, N=N, J_min=J_min, lam=lam, jax=True))
    for L, N, Jm, lam in ((64, 5, 0, 2.0), (64, 4, 5, 2.0), (33, 6, 2, 2.0), (50, 3, 1, 3.0), (32, 32, 0, 2.0), (40, 40, 2, 1.5), (128, 2, 0, 2.0), (100, 9, 1, 1.25)):
        out.append(dict(L=L, N=N, J_min=Jm, lam=lam, jax=L <= 64))
    for _ in range(n):
        L, N, J_min, lam = rnd_cfg(r, Lmax)
        out.append(dict(L=L, N=N, J_min=J_min, lam=lam, jax=True))
    for c in out:
        L = c["L"]
        c.setdefault("spin", spins(r, L))
        if "spin0" not in c:
            s = r.choice([0, 1, -1, 2, -2, r.randint(-min(L - 1, 8), min(L - 1, 8))])
            c["spin0"] = s if abs(s) < L else 0
    return out


def cases(prop, seed, tier, directed=(), repo="/repo"):
    r = random.Random(seed * 1000003 + int(prop[1:]))
    directed = [dict(d) for d in directed]
    lits = literals(repo)
    if prop in ("C01", "C06", "C07", "C11", "C16"):
        if prop == "C11":
            for d in directed:
                d["spin"] = 0
        return transform_cases(prop, r, tier, directed, lits)
    if prop == "C09":
        return transform_cases(prop, r, tier, directed, lits, ("jax", "c", "pre", "torch"))
    if prop == "C08":
        out = []
        for c in filter_cfgs(r, tier, directed, lits):
            for s in SAMP if c["L"] < 20 else ("mw",):
                for m in (True, False):
                    out.append(dict(prop=prop, case=dict(c, sampling=s, multi=m, spin=0, part="shapes")))
        return out + [dict(j, case=dict(j["case"], part="analysis")) for j in transform_cases(prop, r, tier, directed, lits)]
    if prop == "C10":
        out = []
        for c in directed + transform_cfgs(r, {"quick": 4, "thorough": 40}[tier], 10):
            for f in (False, True):
                out.append(dict(prop=prop, case=dict(c, fam="pre", forward=f, torch=r.random() < 0.5)))
        return out
    if prop in ("C02", "C04", "C05", "C12"):
        out = []
        for c in filter_cfgs(r, tier, directed, lits):
            if prop == "C05" and r.random() < 0.3:
                c["quad_iters"] = r.choice([50, 101, 301])
            out.append(dict(prop=prop, case=c))
            if prop == "C12":
                L = c["L"]
                for s0 in {1, -1, 2, -2, min(L - 1, 5), -min(L - 1, 5)}:
                    if 0 < abs(s0) < L:
                        out.append(dict(prop=prop, case=dict(c, spin0=s0, spin=r.choice([0, spins(r, L)]), jax=c.get("jax", True) and r.random() < 0.3)))
        if prop == "C12":
            for L, s0 in ((24, 17), (24, -17), (33, 20), (64, -12)):
                out.append(dict(prop=prop, case=dict(L=L, N=2, J_min=1, lam=2.0, spin=0, spin0=s0, jax=L < 64)))
        if prop == "C05":
            out.append(dict(prop=prop, case=dict(L=70, N=66, J_min=1, lam=2.0, spin=0, spin0=0, jax=True)))
        return out
    if prop == "C03":
        out = [dict(prop=prop, case=dict(d, jax=True)) for d in directed]
        top = 14 if tier == "quick" else 24
        for L in range(2, top):
            for N in range(1, L + 1):
                out.append(dict(prop=prop, case=dict(L=L, N=N, jax=L <= 7 or r.random() < 0.12)))
        for c in lit_cfgs(lits, 130)[:80]:
            out.append(dict(prop=prop, case=dict(L=c["L"], N=c["N"], jax=True)))
        for L, N in ((32, 32), (40, 17), (64, 8), (64, 33), (128, 5), (70, 70)):
            out.append(dict(prop=prop, case=dict(L=L, N=N, jax=L <= 40 or N == 70)))
        return out
    if prop == "C13":
        out = [dict(prop=prop, case=dict(d)) for d in directed if "J_min" in d]
        for L in (2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64):
            for lam in (2.0, 3.0, 1.5, 2.5):
                J = jmax(L, lam)
                for Jm in sorted({-5, -2, -1, 0, 1, J - 2, J - 1, J, J + 1, J + 5}):
                    if lam == 2.0 or Jm in (-1, 0, J - 1, J, J + 1):
                        N = r.choice([1, 2, min(3, L)])
                        out.append(dict(prop=prop, case=dict(L=L, lam=lam, J_min=Jm, N=min(N, L))))
        for c in lit_cfgs(lits, 130)[:40]:
            out.append(dict(prop=prop, case=c))
        for L, N, lam, s in ((4, 2, 2.0, "mw"), (6, 3, 2.0, "mwss"), (5, 2, 3.0, "dh"), (8, 1, 2.0, "gl")):
            out.append(dict(prop=prop, case=dict(what="reject", L=L, N=N, lam=lam, sampling=s)))
        if tier == "quick":
            r.shuffle(out)
            out.sort(key=lambda j: 0 if j["case"].get("what") == "reject" or j["case"]["L"] <= 9 else 1)
            out = out[:220]
        return out
    if prop == "C15":
        out = [dict(prop=prop, case=dict(d)) for d in directed]
        for lam in (2.0, 3.0, 1.5, 2.5, 4.0, 1.25, 1.1, 5.0, 7.5, 1.7, 10.0):
            for L in list(range(2, 70)) + [100, 125, 128, 129, 243, 256, 257, 512, 1000, 1024, 1025, 4096]:
                out.append(dict(prop=prop, case=dict(L=L, lam=lam, what="jmax")))
        for c in filter_cfgs(r, tier, [], lits):
            out.append(dict(prop=prop, case=dict(L=c["L"], lam=c["lam"], jax=c["jax"], quad_iters=r.choice([300, 300, 300, 50, 101]))))
        return out
    if prop == "C14":
        out = []
        gens = [[dict(L=6, N=3, J_min=1, lam=2.0, spin=0, sampling="mw"), dict(L=6, N=2, J_min=1, lam=2.0, spin=0, sampling="mw"),
                 dict(L=6, N=3, J_min=0, lam=2.0, spin=0, sampling="mw"), dict(L=6, N=3, J_min=1, lam=1.5, spin=1, sampling="mw"),
                 dict(L=6, N=3, J_min=1, lam=2.0, spin=0, spin0=1, sampling="gl"), dict(L=7, N=3, J_min=1, lam=2.0, sampling="mw", reality=True)],
                [dict(L=5, N=2, J_min=0, lam=2.0, sampling="dh"), dict(L=5, N=2, J_min=0, lam=3.0, sampling="dh"), dict(L=5, N=2, J_min=1, lam=2.0, spin=-1, sampling="mwss"),
                 dict(L=5, N=2, J_min=0, lam=2.0, sampling="dh", multi=False, J_max=1)]]
        for d in directed:
            gens.append([d, dict(d, L=d["L"] + 1), dict(d, J_min=0, lam=3.0)])
        for g in gens:
            for x in g:
                x.setdefault("spin0", 0)
            out.append(dict(prop=prop, case=dict(what="generators", cfgs=g), fresh=True))
            for rev in (False, True):
                out.append(dict(prop=prop, case=dict(what="generators", cfgs=g, digest=True, reverse=rev), fresh=True, pair=len(out) - (1 if rev else 0)))
        for fam in FAMS:
            seqs = [[dict(L=6, N=3, J_min=1, lam=2.0, sampling="mw"), dict(L=6, N=3, J_min=1, lam=2.0, sampling="gl"), dict(L=6, N=2, J_min=1, lam=2.0, sampling="mw", reality=True),
                     dict(L=6, N=3, J_min=0, lam=2.0, spin=1, sampling="mwss", J_max=1), dict(L=6, N=3, J_min=1, lam=3.0, sampling="mw")],
                    [dict(L=5, N=2, J_min=0, lam=2.0, sampling="dh", reality=True), dict(L=5, N=2, J_min=0, lam=2.0, sampling="dh", multi=False), dict(L=7, N=2, J_min=0, lam=2.0, sampling="dh")]]
            for g in seqs:
                g = [dict(x, fam=fam, seed=3) for x in g]
                out.append(dict(prop=prop, case=dict(what="transforms", cfgs=g), fresh=True))
                for rev in (False, True):
                    out.append(dict(prop=prop, case=dict(what="transforms", cfgs=g, digest=True, reverse=rev), fresh=True, pair=len(out) - (1 if rev else 0)))
        return out
    if prop == "C20":
        import signatures
        return [dict(prop=prop, case=dict(fn=q, mode=m, L=8)) for q in sorted(signatures.SIGNATURES) for m in ("defaults", "positions")]
    raise KeyError(prop)
