import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic

/-! Chebyshev nodes `(1 - cos (k π / n)) / 2`. -/

namespace Pyvc

noncomputable def cheb (n k : ℕ) : ℝ := (1 - Real.cos (Real.pi * k / n)) / 2

theorem cheb_ascending (n i j : ℕ) (hij : i < j) (hj : j ≤ n) : cheb n i < cheb n j := by
  have hn : (0 : ℝ) < n := by exact_mod_cast (lt_of_lt_of_le (Nat.lt_of_le_of_lt (Nat.zero_le i) hij) hj)
  have hpi := Real.pi_pos
  have hlt : Real.pi * i / n < Real.pi * j / n := by
    apply div_lt_div_of_pos_right _ hn
    exact mul_lt_mul_of_pos_left (by exact_mod_cast hij) hpi
  have h0 : 0 ≤ Real.pi * i / n := by positivity
  have h1 : Real.pi * j / n ≤ Real.pi := by
    rw [div_le_iff₀ hn]
    exact mul_le_mul_of_nonneg_left (by exact_mod_cast hj) hpi.le
  have := Real.cos_lt_cos_of_nonneg_of_le_pi h0 h1 hlt
  unfold cheb
  linarith

theorem cheb_ends (n : ℕ) (hn : 1 ≤ n) : cheb n 0 = 0 ∧ cheb n n = 1 := by
  have : (n : ℝ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  unfold cheb
  constructor
  · simp
  · rw [mul_div_cancel_right₀ _ this, Real.cos_pi]
    norm_num

end Pyvc
