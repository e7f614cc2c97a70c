"""Writes MANIFEST.json (kept under version control)."""
import json
NOTE = {
 "C01": "Every analysis and synthesis contract is discharged for all parameters and signals; with the admissibility lemmas (z3) and the Lean theorem round_trip the composition is the identity on band-limited signals in real arithmetic. Assumes the exactness contracts of s2fft/SSHT.",
 "C02": "Generator contracts discharged for all parameters; the sum over scales and orders is closed by Lean (axisym_admissible, directional_admissible, unit_energy).",
 "C03": "tiling_direction (NumPy and JAX) proved equal to the closed binomial form for all L, N, l, m; unit energy by Lean (binomial theorem).",
 "C04": "Bandlimit helpers proved equal to their specification for all L, N, j, lam; containment of the filter support proved as a lemma over the filter formula, which the generator contracts establish.",
 "C05": "All generators are proved equal to the same specification, hence to each other, for all parameters including spin and spin0.",
 "C06": "Each analysis proved to return the inverse Wigner/spherical transform of the specified coefficients at every scale, degree, order, for every signal.",
 "C07": "Each synthesis proved to return the inverse transform of the specified double sum for arbitrary coefficients.",
 "C08": "Shape helpers, constructors and shapes of every analysis proved for all parameters; wavelet_shape_check proved to accept exactly the matching shapes.",
 "C09": "flm_to_analysis and analysis proved against the same per-scale specification for every J_min<=J_max<=J.",
 "C10": "Kernel generators proved against the list of per-scale kernels; every transform call is obliged to use a kernel generated for its own bandlimit, directionality, lower bandlimit, spin, reality, sampling and direction.",
 "C11": "reality=True contract instances use the same specification as reality=False; Hermitian symmetry of the coefficients is a lemma.",
 "C12": "Generator contracts for spin0>0, spin0<0 and spin0=0 discharged against the closed spin factor and the mask below max(|spin|,|spin0|).",
 "C13": "ValueError raised iff J_min is outside 0..J-1 (both directions proved per generator); backend checks proved to raise on every path; in-bounds and no-raise obligations on valid inputs.",
 "C14": "Frame obligations (no argument array or list changes) and freshness of results on every function, plus results proved to be functions of the arguments only; call histories additionally exercised concretely.",
 "C15": "j_max and k_lam (NumPy, JAX) proved against the closed definition; range, end values and monotonicity in j are lemmas. k in [0,1] in the transition zone and monotonicity in l rest on the quadrature (assumed, checked concretely).",
 "C20": "Position, name and default of every documented parameter of every public function are obligations on the current signatures; with the contracts for explicit arguments (C01-C16) this fixes every call with omitted or positional arguments.",
 "C16": "Analysis contracts plus admissibility lemmas and the Lean theorem parseval give the energy identity for every signal.",
}
THM = {"C01": ["round_trip", "directional_admissible", "support_energy"], "C02": ["axisym_admissible", "directional_admissible", "telescope", "unit_energy"], "C03": ["unit_energy"], "C16": ["parseval", "directional_admissible", "support_energy"]}
NA = [
 ("C17", "Gradients are produced by the JAX/Torch autodiff systems; no function of this repository computes them, so no contract on repository code can state or decide the property."),
 ("C18", "Rounding-error bounds over external floating-point kernels (s2fft, XLA, FFTs): the verifier treats machine numbers as mathematical, and no deductive tool here covers these kernels."),
 ("C19", "HEALPix has no sampling theorem, so there is no exact contract of the external transforms to compose; only an empirical error level could be tested."),
]
m = dict(version=1, setup_cmd="python3-vt setup_check.py",
         checks=[dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p,
                      technique="contract-based deductive verification of the repository source (symbolic execution to SMT%s), counter-models replayed on the real code" % (" and Lean" if p in THM else ""),
                      level="proof", level_note=NOTE[p], **({"theorems": THM[p]} if p in THM else {})) for p in sorted(NOTE)],
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="No hooks are needed: the source of /repo is read as it is. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
