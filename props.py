"""Per property: the functions whose contracts it rests on, which contract instances and which obligations decide it."""
ANA = ["base.analysis", "base.analysis_looped", "wavelet.analysis", "wavelet_c.analysis", "wavelet_precompute.analysis", "wavelet_precompute_torch.analysis"]
SYN = [a.replace("analysis", "synthesis") for a in ANA]
FLM = ["wavelet.flm_to_analysis", "wavelet_c.flm_to_analysis", "wavelet_precompute.flm_to_analysis", "wavelet_precompute_torch.flm_to_analysis"]
AX = ["filters.filters_axisym", "filters.filters_axisym_vectorised", "filters.filters_axisym_jax"]
FD = ["filters.filters_directional", "filters.filters_directional_vectorised", "filters.filters_directional_jax"]
KL = ["filters.k_lam", "filters.k_lam_jax", "filters.part_scaling_fn", "filters.tiling_integrand"]
TD = ["filters.tiling_direction", "filters.tiling_direction_jax"]
SPN = ["filters._spin_normalization", "filters._spin_normalization_vectorised", "filters._spin_normalization_jax"]
BL = ["samples.scal_bandlimit", "samples.wav_j_bandlimit", "samples.L0_j", "samples.LN_j"]
SHP = ["samples.n_wav_scales", "samples.f_scal", "samples.f_wav_j", "samples.flmn_wav_j", "samples.construct_f", "samples.construct_flm", "samples.construct_flmn",
       "samples.construct_f_jax", "samples.construct_flm_jax", "samples.construct_flmn_jax", "samples.construct_f_torch", "samples.construct_flmn_torch"]
CON = ["construct.generate_full_precomputes", "construct.generate_wigner_precomputes"]

PROPS = {
    "C01": dict(roots=ANA + SYN, direct=ANA + SYN, lean=True),
    "C02": dict(roots=AX + FD, direct=AX + FD, lean=True),
    "C03": dict(roots=TD, direct=TD, lean=True),
    "C04": dict(roots=BL + FD, direct=BL),
    "C05": dict(roots=AX + FD + KL[:2] + TD, direct=AX + FD + KL[:2] + TD),
    "C06": dict(roots=ANA, direct=ANA),
    "C07": dict(roots=SYN, direct=SYN),
    "C08": dict(roots=BL + SHP + ANA, direct=BL + SHP + ANA),
    "C09": dict(roots=FLM + ANA[2:], direct=FLM),
    "C10": dict(roots=CON + ANA[2:3] + SYN[2:3] + FLM[:1] + ANA[4:] + SYN[4:] + FLM[2:], direct=CON + ANA[2:] + SYN[2:] + FLM),
    "C11": dict(roots=ANA + SYN, direct=ANA + SYN),
    "C12": dict(roots=FD + SPN, direct=FD + SPN),
    "C13": dict(roots=AX + FD + ANA[2:] + SYN[2:] + FLM, direct=AX + FD + ANA[2:] + SYN[2:] + FLM),
    "C14": dict(roots=AX + FD + KL + TD + SPN + SHP + CON + ANA + SYN + FLM, direct=AX + FD + KL + TD + SPN + SHP + CON + ANA + SYN + FLM),
    "C15": dict(roots=["samples.j_max"] + KL, direct=["samples.j_max"] + KL),
    "C16": dict(roots=ANA, direct=ANA, lean=True),
    "C20": dict(roots=[], direct=[]),
}
for _i, _p in PROPS.items():
    _p["id"] = _i


def variant_ok(P, q, v):
    """contract instances that the property quantifies over"""
    i = P["id"]
    if v.get("scattering") is True and q in ANA and i not in ("C06", "C08", "C14"):
        return False
    if q in FD and v.get("case") and i in ("C01", "C02", "C16", "C08", "C10", "C13", "C09", "C04"):
        return i == "C04" or i == "C13"
    if q in FD and not v.get("case") and i == "C12":
        return True
    if q in FD and v.get("using_torch") and i in ("C01", "C02", "C16", "C04"):
        return False
    return True


RAISE = ("ValueError only when", "returns only when", "raised")
SHAPE = ("shape", "number of elements", "rank", "is a list", "is an array", "-tuple", "precondition of")


def relevant(P, key, r, x):
    """may the failure of this obligation be a violation of the property"""
    n, i = x["name"], P["id"]
    if key[0] != "fn":
        return True
    frame = n.startswith(("frame", "fresh", "pure"))
    if i == "C14":
        return frame
    if frame:
        return False
    if i == "C13":
        return any(a in n for a in RAISE) or n.startswith(("index", "bounds", "precondition")) or "in range" in n or "bounds" in n
    if n.startswith("returns only when"):
        return False
    if i == "C08" and key[1] in ANA:
        return any(a in n for a in SHAPE)
    if i == "C10" and key[1] not in CON:
        return "kernel" in n.lower()
    if i == "C11":
        return "reality=True" in r["variant"] or key[1] not in ANA + SYN
    return True


def direct(P, key, r, x):
    """is the failed obligation itself (an instance of) the property"""
    if key[0] != "fn":
        return True
    return key[1] in P["direct"]


TRUSTED = [
    "the verifier in /verif/pv (symbolic execution of the Python AST, semantics of the used NumPy/JAX/Torch operations, exact normaliser)",
    "z3 (SMT solver)", "Lean 4 kernel and Mathlib for the finite-sum lemmas (C01, C02, C03, C16)",
    "CPython's ast parser; the source text of /repo is executed symbolically, docstrings and annotations dropped",
    "decorators: jax.jit (with its static arguments) is taken as semantically transparent",
]
ASSUMPTIONS = [
    "machine numbers are treated as mathematical: reals for floats, integers for int; rounding is out of scope (C18), the concrete cross-check uses a 1e-9 relative tolerance",
    "s2fft/SSHT (external dependency): inverse then forward transforms are the identity on band-limited coefficients for mw, mwss, dh, gl; coefficients vanish outside |m|,|n|<=l, l>=|spin|; the reality option equals the complex transform on real signals; kernels generated for (L,N,spin,reality,sampling,direction) are valid for exactly these",
    "generating function: 0 <= k_j(l) <= 1 for 300 quadrature steps (checked concretely in C15)",
    "the domain of the contracts: L>=2, 1<=N<=L, lam>1, 0<=J_min<J, |spin|,|spin0|<L, reality implies spin=0, sampling in {mw,mwss,dh,gl}, double precision",
    "termination of the loops is by their ranges; memory exhaustion is out of scope",
]
