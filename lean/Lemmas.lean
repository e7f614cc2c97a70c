import Mathlib

/-! Lemmas that combine the contracts proved by `pv` into the properties (fixed degree l, order m).
`k j` is the generating function at scale J_min + j, `nJ` the number of wavelet scales,
`e n` the squared modulus of the directional component, `psi j n`, `phi` the filters. -/

open Finset

/-- C03: the squared directional component C(γ,k)/2^γ sums to one. -/
theorem unit_energy (g : ℕ) : ∑ k ∈ range (g + 1), ((g.choose k : ℝ) / 2 ^ g) = 1 := by
  rw [← Finset.sum_div, ← Nat.cast_sum, Nat.sum_range_choose]; simp

/-- C02: kappa_j^2 = k_{j+1} - k_j telescopes. -/
theorem telescope (k : ℕ → ℝ) (n : ℕ) : ∑ j ∈ range n, (k (j + 1) - k j) = k n - k 0 :=
  Finset.sum_range_sub k n

/-- C02: axisymmetric admissibility. -/
theorem axisym_admissible (k kap : ℕ → ℝ) (phi : ℝ) (n : ℕ)
    (hk : ∀ j < n, kap j ^ 2 = k (j + 1) - k j) (hp : phi ^ 2 = k 0) (ht : k n = 1) :
    phi ^ 2 + ∑ j ∈ range n, kap j ^ 2 = 1 := by
  rw [Finset.sum_congr rfl (fun j hj => hk j (Finset.mem_range.mp hj)), telescope, hp, ht]; ring

/-- C02: directional admissibility from the per-degree energies. -/
theorem directional_admissible {ι : Type} (S : Finset ι) (k kap : ℕ → ℝ) (e : ι → ℝ) (psi : ℕ → ι → ℂ)
    (phi c d : ℝ) (n : ℕ)
    (hk : ∀ j < n, kap j ^ 2 = k (j + 1) - k j) (ht : k n = 1) (he : ∑ i ∈ S, e i = 1)
    (hpsi : ∀ j < n, ∀ i ∈ S, c * ‖psi j i‖ ^ 2 = kap j ^ 2 * e i) (hp : d * phi ^ 2 = k 0) :
    d * phi ^ 2 + ∑ j ∈ range n, ∑ i ∈ S, c * ‖psi j i‖ ^ 2 = 1 := by
  have h1 : ∀ j ∈ range n, ∑ i ∈ S, c * ‖psi j i‖ ^ 2 = k (j + 1) - k j := by
    intro j hj
    rw [Finset.sum_congr rfl (fun i hi => hpsi j (Finset.mem_range.mp hj) i hi), ← Finset.mul_sum, he,
      hk j (Finset.mem_range.mp hj)]; ring
  rw [Finset.sum_congr rfl h1, telescope, hp, ht]; ring

/-- C01: synthesis after analysis returns the harmonic coefficient `f`.
Analysis gives w j i = c f conj(psi j i) and s = r f phi (r = sqrt d); synthesis sums psi w + r phi s. -/
theorem round_trip {ι : Type} (S : Finset ι) (psi w : ℕ → ι → ℂ) (phi c d r : ℝ) (f s : ℂ) (n : ℕ)
    (hr : r ^ 2 = d)
    (hadm : d * phi ^ 2 + ∑ j ∈ range n, ∑ i ∈ S, c * ‖psi j i‖ ^ 2 = 1)
    (hw : ∀ j < n, ∀ i ∈ S, w j i = c * f * (starRingEnd ℂ) (psi j i))
    (hs : s = r * f * phi) :
    ∑ j ∈ range n, ∑ i ∈ S, psi j i * w j i + r * phi * s = f := by
  have h1 : ∀ j ∈ range n, ∑ i ∈ S, psi j i * w j i = f * ((∑ i ∈ S, c * ‖psi j i‖ ^ 2 : ℝ) : ℂ) := by
    intro j hj
    push_cast
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    rw [hw j (Finset.mem_range.mp hj) i hi]
    have := Complex.mul_conj (psi j i)
    rw [Complex.normSq_eq_norm_sq] at this
    push_cast at this
    linear_combination (c : ℂ) * f * this
  rw [Finset.sum_congr rfl h1, ← Finset.mul_sum, hs]
  have h2 := congrArg (fun x : ℝ => (x : ℂ)) hadm
  have h3 := congrArg (fun x : ℝ => (x : ℂ)) hr
  push_cast at h2 h3 ⊢
  linear_combination f * h2 + f * (phi : ℂ) ^ 2 * h3

/-- C16: energy of the coefficients equals the energy of the signal. -/
theorem parseval {ι : Type} (S : Finset ι) (psi w : ℕ → ι → ℂ) (phi c d r : ℝ) (f s : ℂ) (n : ℕ)
    (hc : 0 < c) (hr : r ^ 2 = d)
    (hadm : d * phi ^ 2 + ∑ j ∈ range n, ∑ i ∈ S, c * ‖psi j i‖ ^ 2 = 1)
    (hw : ∀ j < n, ∀ i ∈ S, w j i = c * f * (starRingEnd ℂ) (psi j i))
    (hs : s = r * f * phi) :
    ∑ j ∈ range n, ∑ i ∈ S, ‖w j i‖ ^ 2 / c + ‖s‖ ^ 2 = ‖f‖ ^ 2 := by
  have h1 : ∀ j ∈ range n, ∑ i ∈ S, ‖w j i‖ ^ 2 / c = ‖f‖ ^ 2 * ∑ i ∈ S, c * ‖psi j i‖ ^ 2 := by
    intro j hj
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl (fun i hi => ?_)
    rw [hw j (Finset.mem_range.mp hj) i hi]
    simp only [norm_mul, RCLike.norm_conj, Complex.norm_real, Real.norm_eq_abs, mul_pow, sq_abs]
    field_simp
  rw [Finset.sum_congr rfl h1, ← Finset.mul_sum, hs]
  simp only [norm_mul, Complex.norm_real, Real.norm_eq_abs, mul_pow, sq_abs]
  linear_combination ‖f‖ ^ 2 * hadm + ‖f‖ ^ 2 * phi ^ 2 * hr

/-- C03: the orders of the support gamma - 2k (k = 0..gamma) carry unit energy. -/
theorem support_energy (g : ℕ) (S : Finset ℤ) (e : ℤ → ℝ)
    (hS : S = (range (g + 1)).image (fun k : ℕ => (g : ℤ) - 2 * k))
    (he : ∀ k ≤ g, e ((g : ℤ) - 2 * k) = (g.choose k : ℝ) / 2 ^ g) :
    ∑ m ∈ S, e m = 1 := by
  rw [hS, Finset.sum_image (by intro a _ b _ h; simp only at h; omega)]
  rw [Finset.sum_congr rfl (fun k hk => he k (Nat.lt_succ_iff.mp (Finset.mem_range.mp hk)))]
  exact unit_energy g

#print axioms unit_energy
#print axioms telescope
#print axioms axisym_admissible
#print axioms directional_admissible
#print axioms round_trip
#print axioms parseval
#print axioms support_energy
