"""Documented parameters, in order, with the documented defaults ("Defaults to ..." in the docstrings) of the public functions."""
_S = "sampling='mw', nside=None"
_T = "N=1, J_min=0, lam=2.0, spin=0, "
_BT = _T + "spin0=0, " + _S + ", reality=False, multiresolution=True"
_PT = _T + _S + ", reality=False, filters=None, precomps=None"
_PF = "N=1, J_min=0, J_max=None, lam=2.0, " + _S + ", reality=False, filters=None, precomps=None"
_CT = _T + "sampling='mw', reality=False, filters=None"
_F = "L, N=1, J_min=0, lam=2.0, spin=0, spin0=0"
_A = "L, J_min=0, lam=2.0"
SIGNATURES = {
    "filters.filters_axisym": _A, "filters.filters_axisym_vectorised": _A, "filters.filters_axisym_jax": _A,
    "filters.filters_directional": _F + ", using_torch=False", "filters.filters_directional_vectorised": _F + ", using_torch=False",
    "filters.filters_directional_jax": _F,
    "filters.tiling_integrand": "t, lam=2.0", "filters.part_scaling_fn": "a, b, n, lam=2.0",
    "filters.k_lam": "L, lam=2.0, quad_iters=300", "filters.k_lam_jax": "L, lam=2.0, quad_iters=300",
    "filters.tiling_direction": "L, N=1", "filters.tiling_direction_jax": "L, N=1",
    "samples.f_scal": _A + ", " + _S + ", multiresolution=False", "samples.n_wav_scales": "L, N=1, J_min=0, lam=2.0",
    "samples.L0_j": "j, lam=2.0", "samples.LN_j": "L, j=0, N=1, lam=2.0, multiresolution=False",
    "samples.f_wav_j": "L, j=0, N=1, lam=2.0, " + _S + ", multiresolution=False",
    "samples.construct_f": "L, N=1, J_min=0, lam=2.0, " + _S + ", multiresolution=False, scattering=False",
    "samples.construct_f_jax": "L, J_min=0, J_max=None, lam=2.0", "samples.construct_f_torch": "L, J_min=0, J_max=None, lam=2.0",
    "samples.construct_flm": _A + ", multiresolution=False", "samples.construct_flm_jax": _A + ", multiresolution=False",
    "samples.scal_bandlimit": _A + ", multiresolution=False", "samples.flmn_wav_j": "L, j, N=1, lam=2.0, multiresolution=False",
    "samples.wav_j_bandlimit": "L, j, lam=2.0, multiresolution=False",
    "samples.construct_flmn": "L, N=1, J_min=0, lam=2.0, multiresolution=False, scattering=False",
    "samples.construct_flmn_jax": "L, N=1, J_min=0, J_max=None, lam=2.0, multiresolution=False",
    "samples.construct_flmn_torch": "L, N=1, J_min=0, J_max=None, lam=2.0, multiresolution=False",
    "samples.j_max": "L, lam=2.0",
    "samples.wavelet_shape_check": "f_w, f_s, L, N=1, J_min=0, lam=2.0, " + _S + ", multiresolution=False",
    "base.synthesis_looped": "f_wav, f_scal, L, N, " + _BT[5:], "base.synthesis": "f_wav, f_scal, L, " + _BT,
    "base.analysis_looped": "f, L, " + _BT, "base.analysis": "f, L, " + _BT + ", scattering=False",
    "construct.generate_full_precomputes": "L, N, J_min=0, lam=2.0, " + _S + ", forward=False, reality=False, nospherical=False, using_torch=False",
    "construct.generate_wigner_precomputes": "L, N, J_min=0, lam=2.0, " + _S + ", forward=False, reality=False, using_torch=False",
    "wavelet_c.synthesis": "f_wav, f_scal, L, " + _CT, "wavelet_c.analysis": "f, L, " + _CT,
    "wavelet_c.flm_to_analysis": "flm, L, N=1, J_min=0, J_max=None, lam=2.0, sampling='mw', reality=False, filters=None",
}
for _m in ("wavelet", "wavelet_precompute", "wavelet_precompute_torch"):
    SIGNATURES[_m + ".synthesis"] = "f_wav, f_scal, L, " + _PT
    SIGNATURES[_m + ".analysis"] = "f, L, " + _PT
    SIGNATURES[_m + ".flm_to_analysis"] = "flm, L, " + _PF
