import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Linarith

/-! Facts about Lagrange interpolation used as lemmas by the contracts.  Nodes are `τ 0 .. τ (n-1)`,
elements of any field (of characteristic zero where antiderivatives occur). -/

open Finset Polynomial

namespace Pyvc

variable {K : Type*} [Field K]

def Inj (τ : ℕ → K) (n : ℕ) : Prop := ∀ i < n, ∀ j < n, τ i = τ j → i = j

/-- value at `x` of the `k`-th cardinal polynomial (`spec.lag`) -/
def lag (τ : ℕ → K) (n k : ℕ) (x : K) : K :=
  ∏ r ∈ range n, if r = k then 1 else (x - τ r) / (τ k - τ r)

/-- reciprocal barycentric weight (`spec.wden`) -/
def wden (τ : ℕ → K) (n k : ℕ) : K :=
  ∏ r ∈ range n, if r = k then 1 else (τ k - τ r)

/-- differentiation matrix (`spec.dmat`) -/
def dmat (τ : ℕ → K) (n j k : ℕ) : K :=
  if j = k then - ∑ i ∈ range n, (if i = j then 0 else wden τ n j / wden τ n i / (τ j - τ i))
  else wden τ n j / wden τ n k / (τ j - τ k)

variable {τ : ℕ → K} {n : ℕ}

omit [Field K] in
lemma injOn (h : Inj τ n) : Set.InjOn τ (range n : Finset ℕ) := by
  intro i hi j hj hij
  exact h i (by simpa using hi) j (by simpa using hj) hij

lemma prod_guard {k : ℕ} (hk : k < n) (f : ℕ → K) :
    (∏ r ∈ range n, if r = k then 1 else f r) = ∏ r ∈ (range n).erase k, f r := by
  rw [← Finset.mul_prod_erase (range n) _ (mem_range.mpr hk)]
  simp only [if_true, one_mul]
  apply Finset.prod_congr rfl
  intro r hr
  rw [if_neg (Finset.ne_of_mem_erase hr)]

lemma lag_eq_basis {k : ℕ} (hk : k < n) (x : K) :
    lag τ n k x = eval x (Lagrange.basis (range n) τ k) := by
  unfold lag Lagrange.basis
  rw [prod_guard hk, eval_prod]
  apply Finset.prod_congr rfl
  intro r _
  simp [Lagrange.basisDivisor, div_eq_mul_inv, mul_comm]

lemma wden_eq {k : ℕ} (hk : k < n) : 1 / wden τ n k = Lagrange.nodalWeight (range n) τ k := by
  unfold wden Lagrange.nodalWeight
  rw [prod_guard hk, one_div, Finset.prod_inv_distrib]

lemma wden_eq' {k : ℕ} (hk : k < n) : wden τ n k = (Lagrange.nodalWeight (range n) τ k)⁻¹ := by
  rw [← wden_eq hk, one_div, inv_inv]

/-- degree of the cardinal polynomials -/
theorem lag_degree (h : Inj τ n) {k : ℕ} (hk : k < n) : (Lagrange.basis (range n) τ k).natDegree = n - 1 := by
  rw [Lagrange.natDegree_basis (injOn h) (mem_range.mpr hk), card_range]

/-- the cardinal polynomials are one at their own node and zero at the others -/
theorem lag_node (h : Inj τ n) {k j : ℕ} (hk : k < n) (hj : j < n) : lag τ n k (τ j) = if k = j then 1 else 0 := by
  rw [lag_eq_basis hk]
  split_ifs with e
  · subst e
    exact Lagrange.eval_basis_self (injOn h) (mem_range.mpr hk)
  · exact Lagrange.eval_basis_of_ne e (mem_range.mpr hj)

/-- interpolation in cardinal form is exact -/
theorem interp_exact (h : Inj τ n) (p : K[X]) (hp : p.degree < n) (x : K) :
    ∑ k ∈ range n, eval (τ k) p * lag τ n k x = eval x p := by
  have e := Lagrange.eq_interpolate (s := range n) (v := τ) (f := p) (injOn h) (by simpa using hp)
  conv_rhs => rw [e]
  rw [Lagrange.interpolate_apply, eval_finsetSum]
  apply Finset.sum_congr rfl
  intro k hk
  rw [lag_eq_basis (mem_range.mp hk)]
  simp

/-- the cardinal values sum to one -/
theorem lag_sum (h : Inj τ n) (hn : 1 ≤ n) (x : K) : ∑ k ∈ range n, lag τ n k x = 1 := by
  have e := interp_exact h (1 : K[X]) (by rw [degree_one]; exact_mod_cast hn) x
  simpa using e

/-- barycentric sum -/
theorem bary_sum (h : Inj τ n) (hn : 1 ≤ n) (x : K) (hx : ∀ r < n, x ≠ τ r) :
    ∑ j ∈ range n, 1 / wden τ n j / (x - τ j) = 1 / ∏ r ∈ range n, (x - τ r) := by
  have s1 := lag_sum h hn x
  have hnod : eval x (Lagrange.nodal (range n) τ) = ∏ r ∈ range n, (x - τ r) := by
    simp [Lagrange.nodal, eval_prod]
  have hp : ∏ r ∈ range n, (x - τ r) ≠ 0 := by
    rw [Finset.prod_ne_zero_iff]
    intro r hr
    exact sub_ne_zero.mpr (hx r (mem_range.mp hr))
  have s2 : ∑ j ∈ range n, (∏ r ∈ range n, (x - τ r)) * (1 / wden τ n j / (x - τ j)) = 1 := by
    refine Eq.trans ?_ s1
    apply Finset.sum_congr rfl
    intro j hj
    have hj' := mem_range.mp hj
    rw [lag_eq_basis hj', Lagrange.eval_basis_not_at_node hj (hx j hj'), hnod, wden_eq hj', div_eq_mul_inv]
  rw [← Finset.mul_sum] at s2
  rw [eq_div_iff hp, mul_comm]
  exact s2

lemma deriv_basis_off (h : Inj τ n) {j k : ℕ} (hj : j < n) (hk : k < n) (hjk : j ≠ k) :
    eval (τ j) (derivative (Lagrange.basis (range n) τ k)) = wden τ n j / wden τ n k / (τ j - τ k) := by
  have hne : τ j - τ k ≠ 0 := sub_ne_zero.mpr (fun e => hjk (h j hj k hk e))
  have e1 : Lagrange.basis (range n) τ k * (X - C (τ k)) =
      C (Lagrange.nodalWeight (range n) τ k) * Lagrange.nodal (range n) τ := by
    rw [Lagrange.nodal_eq_mul_nodal_erase (mem_range.mpr hk)]
    unfold Lagrange.basis Lagrange.nodalWeight Lagrange.nodal Lagrange.basisDivisor
    rw [Finset.prod_mul_distrib, map_prod]
    ring
  have e2 := congrArg (fun q => eval (τ j) (derivative q)) e1
  simp only [derivative_mul, derivative_sub, derivative_X, derivative_C, sub_zero, mul_one, eval_add, eval_mul,
    eval_sub, eval_X, eval_C, zero_mul, zero_add] at e2
  rw [Lagrange.eval_basis_of_ne hjk.symm (mem_range.mpr hj), add_zero] at e2
  have e3 := Lagrange.nodalWeight_eq_eval_derivative_nodal (v := τ) (mem_range.mpr hj)
  rw [wden_eq' hj, wden_eq' hk, e3, inv_inv, eq_div_iff hne, e2, div_inv_eq_mul, mul_comm]

/-- the barycentric differentiation matrix is exact on polynomials of degree below n -/
theorem deriv_exact (h : Inj τ n) (p : K[X]) (hp : p.degree < n) {j : ℕ} (hj : j < n) :
    ∑ k ∈ range n, dmat τ n j k * eval (τ k) p = eval (τ j) (derivative p) := by
  have hn : 1 ≤ n := by omega
  have hd : ∀ k < n, dmat τ n j k = eval (τ j) (derivative (Lagrange.basis (range n) τ k)) := by
    have off : ∀ k < n, j ≠ k → dmat τ n j k = eval (τ j) (derivative (Lagrange.basis (range n) τ k)) := by
      intro k hk hjk
      rw [deriv_basis_off h hj hk hjk]
      simp [dmat, hjk]
    intro k hk
    by_cases hjk : j = k
    · subst hjk
      have s := Lagrange.sum_basis (injOn h) ⟨0, mem_range.mpr (by omega)⟩
      have s2 := congrArg (fun q => eval (τ j) (derivative q)) s
      simp only [derivative_sum, eval_finsetSum, derivative_one, eval_zero] at s2
      rw [← Finset.add_sum_erase _ _ (mem_range.mpr hj)] at s2
      have s3 : ∑ i ∈ range n, (if i = j then 0 else wden τ n j / wden τ n i / (τ j - τ i)) =
          ∑ i ∈ (range n).erase j, eval (τ j) (derivative (Lagrange.basis (range n) τ i)) := by
        rw [← Finset.add_sum_erase _ _ (mem_range.mpr hj)]
        simp only [if_true, zero_add]
        apply Finset.sum_congr rfl
        intro i hi
        have hi' := Finset.ne_of_mem_erase hi
        rw [if_neg hi', deriv_basis_off h hj (mem_range.mp (Finset.mem_of_mem_erase hi)) (Ne.symm hi')]
      unfold dmat
      rw [if_pos rfl, s3]
      exact (eq_neg_of_add_eq_zero_left s2).symm
    · exact off k hk hjk
  have e := Lagrange.eq_interpolate (s := range n) (v := τ) (f := p) (injOn h) (by simpa using hp)
  conv_rhs => rw [e]
  rw [Lagrange.interpolate_apply, derivative_sum, eval_finsetSum]
  apply Finset.sum_congr rfl
  intro k hk
  rw [hd k (mem_range.mp hk)]
  simp [mul_comm]

/-- applying the differentiation matrix to basis coefficients gives the coefficients of the derivative -/
theorem piece_deriv (h : Inj τ n) (c : ℕ → K) (x : K) :
    ∑ j ∈ range n, (∑ r ∈ range n, c r * dmat τ n j r) * lag τ n j x =
      eval x (derivative (∑ r ∈ range n, C (c r) * Lagrange.basis (range n) τ r)) := by
  set p : K[X] := ∑ r ∈ range n, C (c r) * Lagrange.basis (range n) τ r with hp
  have hdeg : p.degree < n := by
    have e : p = Lagrange.interpolate (range n) τ c := by rw [Lagrange.interpolate_apply]
    rw [e]
    simpa using Lagrange.degree_interpolate_lt (s := range n) (v := τ) c (injOn h)
  have hval : ∀ r < n, eval (τ r) p = c r := by
    intro r hr
    have e : p = Lagrange.interpolate (range n) τ c := by rw [Lagrange.interpolate_apply]
    rw [e]
    exact Lagrange.eval_interpolate_at_node c (injOn h) (mem_range.mpr hr)
  have hd : (derivative p).degree < n := lt_of_le_of_lt (degree_derivative_le) hdeg
  rw [← interp_exact h (derivative p) hd x]
  apply Finset.sum_congr rfl
  intro j hj
  rw [← deriv_exact h p hdeg (mem_range.mp hj)]
  congr 1
  apply Finset.sum_congr rfl
  intro r hr
  rw [hval r (mem_range.mp hr), mul_comm]

/-- integrating the cardinal polynomials integrates every polynomial of degree below n exactly:
`L k` is any antiderivative of the k-th cardinal polynomial, `P` any antiderivative of `p` -/
theorem integ_exact [CharZero K] (h : Inj τ n) (p P : K[X]) (hp : p.degree < n) (hP : derivative P = p)
    (L : ℕ → K[X]) (hL : ∀ k < n, derivative (L k) = Lagrange.basis (range n) τ k) (a b : K) :
    ∑ k ∈ range n, (eval b (L k) - eval a (L k)) * eval (τ k) p = eval b P - eval a P := by
  have e := Lagrange.eq_interpolate (s := range n) (v := τ) (f := p) (injOn h) (by simpa using hp)
  set Q : K[X] := ∑ k ∈ range n, C (eval (τ k) p) * L k with hQ
  have hd : derivative (Q - P) = 0 := by
    rw [derivative_sub, hP, hQ, derivative_sum, sub_eq_zero]
    conv_rhs => rw [e]
    rw [Lagrange.interpolate_apply]
    apply Finset.sum_congr rfl
    intro k hk
    rw [derivative_C_mul, hL k (mem_range.mp hk)]
  have hc := Polynomial.derivative_eq_zero.mp hd
  obtain ⟨c, hc⟩ := Polynomial.natDegree_eq_zero.mp hc
  have hb : eval b Q - eval b P = c := by rw [← eval_sub, ← hc, eval_C]
  have ha : eval a Q - eval a P = c := by rw [← eval_sub, ← hc, eval_C]
  have hs : ∑ k ∈ range n, (eval b (L k) - eval a (L k)) * eval (τ k) p = eval b Q - eval a Q := by
    rw [hQ, eval_finsetSum, eval_finsetSum, ← Finset.sum_sub_distrib]
    apply Finset.sum_congr rfl
    intro k _
    simp
    ring
  rw [hs]
  have e4 := hb.trans ha.symm
  rw [sub_eq_iff_eq_add] at e4
  rw [e4]
  ring

/-- the solution of the transposed Vandermonde system is the vector of cardinal values -/
theorem vander_unique (h : Inj τ n) (x : K) (S : ℕ → K)
    (hS : ∀ j < n, ∑ k ∈ range n, τ k ^ j * S k = x ^ j) {k : ℕ} (hk : k < n) : S k = lag τ n k x := by
  have key : ∀ p : K[X], p.natDegree < n → ∑ m ∈ range n, eval (τ m) p * S m = eval x p := by
    intro p hp
    rw [eval_eq_sum_range' hp x]
    have : ∀ m ∈ range n, eval (τ m) p * S m = ∑ j ∈ range n, p.coeff j * (τ m ^ j * S m) := by
      intro m _
      rw [eval_eq_sum_range' hp, Finset.sum_mul]
      apply Finset.sum_congr rfl
      intro j _
      ring
    rw [Finset.sum_congr rfl this, Finset.sum_comm]
    apply Finset.sum_congr rfl
    intro j hj
    rw [← Finset.mul_sum, hS j (mem_range.mp hj)]
  have hdeg : (Lagrange.basis (range n) τ k).natDegree < n := by
    have := Lagrange.natDegree_basis (injOn h) (mem_range.mpr hk)
    rw [this, card_range]
    omega
  have e := key _ hdeg
  rw [lag_eq_basis hk, ← e, Finset.sum_eq_single k]
  · rw [Lagrange.eval_basis_self (injOn h) (mem_range.mpr hk), one_mul]
  · intro m hm hmk
    rw [Lagrange.eval_basis_of_ne hmk.symm hm, zero_mul]
  · intro hc
    exact absurd (mem_range.mpr hk) hc

/-- differentiation matrix of affinely mapped nodes -/
theorem dmat_affine (h : Inj τ n) (a b : K) (ha : a ≠ 0) (p : K[X]) (hp : p.degree < n) {j : ℕ} (hj : j < n) :
    ∑ k ∈ range n, dmat τ n j k / a * eval (τ k * a + b) p = eval (τ j * a + b) (derivative p) := by
  have hq : (p.comp (X * C a + C b)).degree < n := by
    rcases eq_or_ne p 0 with h0 | h0
    · subst h0; simp
    · have hn : p.natDegree < n := (natDegree_lt_iff_degree_lt h0).mpr hp
      have hx : (X * C a + C b : K[X]).natDegree ≤ 1 := by
        refine (natDegree_add_le _ _).trans ?_
        simp only [natDegree_C, max_le_iff, zero_le, and_true]
        exact (natDegree_mul_C_le _ _).trans natDegree_X_le
      have hc : (p.comp (X * C a + C b)).natDegree < n := by
        refine lt_of_le_of_lt natDegree_comp_le ?_
        refine lt_of_le_of_lt (Nat.mul_le_mul_left _ hx) ?_
        simpa using hn
      exact lt_of_le_of_lt degree_le_natDegree (by exact_mod_cast hc)
  have e := deriv_exact h _ hq hj
  simp only [eval_comp, eval_add, eval_mul, eval_X, eval_C, derivative_comp, derivative_add, derivative_mul,
    derivative_X, derivative_C, mul_zero, add_zero, one_mul] at e
  have : ∀ k ∈ range n, dmat τ n j k / a * eval (τ k * a + b) p = a⁻¹ * (dmat τ n j k * eval (τ k * a + b) p) := by
    intro k _
    field_simp
  rw [Finset.sum_congr rfl this, ← Finset.mul_sum, e]
  field_simp

/-- rows of the differentiation matrix sum to zero -/
theorem dmat_row (h : Inj τ n) {j : ℕ} (hj : j < n) : ∑ k ∈ range n, dmat τ n j k = 0 := by
  have e := deriv_exact h 1 (by
    rw [degree_one]
    exact_mod_cast (by omega : 0 < n)) hj
  simpa using e

/-- inverting the differentiation matrix: the only solution of the system that `Pdq.integral` solves -/
theorem quad_solve [CharZero K] (h : Inj τ (n + 1)) (y S : ℕ → K)
    (hS : ∀ j < n, ∑ l ∈ range n, dmat τ (n + 1) j (l + 1) * S l = ∑ l ∈ range (n + 1), dmat τ (n + 1) j l * y l)
    {l : ℕ} (hl : l < n) : S l = y (l + 1) - y 0 := by
  set e : ℕ → K := fun i => if i = 0 then 0 else S (i - 1) - (y i - y 0) with he
  set q : K[X] := Lagrange.interpolate (range (n + 1)) τ e with hq
  have hdeg : q.degree < (n + 1 : ℕ) := by
    have := Lagrange.degree_interpolate_lt (s := range (n + 1)) e (injOn h)
    rwa [card_range] at this
  have hval : ∀ i < n + 1, eval (τ i) q = e i := fun i hi =>
    Lagrange.eval_interpolate_at_node e (injOn h) (mem_range.mpr hi)
  have hroot : ∀ j < n, eval (τ j) (derivative q) = 0 := by
    intro j hj
    rw [← deriv_exact h q hdeg (by omega : j < n + 1)]
    have e1 : ∑ k ∈ range (n + 1), dmat τ (n + 1) j k * eval (τ k) q = ∑ k ∈ range (n + 1), dmat τ (n + 1) j k * e k := by
      apply Finset.sum_congr rfl
      intro k hk
      rw [hval k (mem_range.mp hk)]
    have e2 := hS j hj
    have e3 := dmat_row h (by omega : j < n + 1)
    rw [e1, Finset.sum_range_succ']
    rw [Finset.sum_range_succ'] at e2 e3
    have e4 : ∑ k ∈ range n, dmat τ (n + 1) j (k + 1) * e (k + 1) =
        ∑ k ∈ range n, dmat τ (n + 1) j (k + 1) * S k - ∑ k ∈ range n, dmat τ (n + 1) j (k + 1) * y (k + 1)
          + (∑ k ∈ range n, dmat τ (n + 1) j (k + 1)) * y 0 := by
      rw [Finset.sum_mul, ← Finset.sum_sub_distrib, ← Finset.sum_add_distrib]
      apply Finset.sum_congr rfl
      intro k _
      simp [he]
      ring
    rw [e4, e2]
    have e5 : ∑ k ∈ range n, dmat τ (n + 1) j (k + 1) = - dmat τ (n + 1) j 0 := eq_neg_of_add_eq_zero_left e3
    rw [e5]
    simp [he]
  have hd0 : derivative q = 0 := by
    have hi : Inj τ n := fun a ha b hb hab => h a (by omega) b (by omega) hab
    refine eq_zero_of_degree_lt_of_eval_index_eq_zero (s := range n) (v := τ) (injOn hi) ?_ fun j hj => hroot j (mem_range.mp hj)
    rw [card_range]
    rcases eq_or_ne q 0 with h0 | h0
    · rw [h0, derivative_zero, degree_zero]
      exact WithBot.bot_lt_coe n
    · refine lt_of_lt_of_le (degree_derivative_lt h0) ?_
      have h1 : q.natDegree < n + 1 := (natDegree_lt_iff_degree_lt h0).mpr hdeg
      exact degree_le_of_natDegree_le (by omega)
  obtain ⟨c, hc⟩ := Polynomial.natDegree_eq_zero.mp (Polynomial.derivative_eq_zero.mp hd0)
  have h0 := hval 0 (by omega)
  have h1 := hval (l + 1) (by omega)
  rw [← hc, eval_C] at h0 h1
  have h2 := h1.symm.trans h0
  simp [he] at h2
  exact sub_eq_zero.mp h2

section Trajectory

variable [CharZero K] {M : ℕ} {c σ : ℕ → K} {L : ℕ → K[X]} {κ : ℕ → K} {x h : K}

/-- node values of the state trajectory on one interval (local time) -/
def trajVal (L : ℕ → K[X]) (c κ : ℕ → K) (M : ℕ) (x h : K) (r : ℕ) : K :=
  if r = 0 then x else x + h * ∑ k ∈ range M, eval (c (r - 1)) (L k) * κ k

/-- the polynomial through these values at the nodes 0, c 0, .., c (M-1) -/
noncomputable def traj (L : ℕ → K[X]) (c κ σ : ℕ → K) (M : ℕ) (x h : K) : K[X] :=
  Lagrange.interpolate (range (M + 1)) σ (trajVal L c κ M x h)

lemma antideriv_degree (p : K[X]) (hp : (derivative p).degree < M) : p.degree < (M + 1 : ℕ) := by
  rw [degree_lt_iff_coeff_zero]
  intro m hm
  rw [degree_lt_iff_coeff_zero] at hp
  have e := hp (m - 1) (by omega)
  rw [coeff_derivative] at e
  have hm1 : m - 1 + 1 = m := by omega
  rw [hm1] at e
  rcases mul_eq_zero.mp e with e | e
  · exact e
  · exfalso
    have : ((m : ℕ) : K) = 0 := by
      rw [← hm1]; push_cast; exact e
    have := Nat.cast_eq_zero.mp this
    omega

theorem traj_poly (hσ : Inj σ (M + 1)) (hc : Inj c M) (h0 : σ 0 = 0) (hs : ∀ j < M, σ (j + 1) = c j)
    (hL : ∀ k < M, derivative (L k) = Lagrange.basis (range M) c k) (hL0 : ∀ k < M, eval 0 (L k) = 0) :
    traj L c κ σ M x h = C x + C h * ∑ k ∈ range M, C (κ k) * L k := by
  symm
  unfold traj
  apply Lagrange.eq_interpolate_of_eval_eq _ (injOn hσ)
  · rw [card_range]
    apply antideriv_degree
    rw [derivative_add, derivative_C, zero_add, derivative_C_mul, derivative_sum]
    refine lt_of_le_of_lt (degree_mul_le _ _) ?_
    have h1 : (∑ k ∈ range M, derivative (C (κ k) * L k)).degree < (M : ℕ) := by
      have e : ∑ k ∈ range M, derivative (C (κ k) * L k) = Lagrange.interpolate (range M) c κ := by
        rw [Lagrange.interpolate_apply]
        apply Finset.sum_congr rfl
        intro k hk
        rw [derivative_C_mul, hL k (mem_range.mp hk)]
      rw [e]
      simpa using Lagrange.degree_interpolate_lt (s := range M) (v := c) κ (injOn hc)
    rcases eq_or_ne h 0 with hz | hz
    · subst hz; simp
    · rw [degree_C hz, zero_add]; exact h1
  · intro r hr
    unfold trajVal
    simp only [eval_add, eval_C, eval_mul, eval_finsetSum]
    split_ifs with e
    · subst e
      rw [h0]
      have : ∑ k ∈ range M, κ k * eval 0 (L k) = 0 := by
        apply Finset.sum_eq_zero
        intro k hk
        rw [hL0 k (mem_range.mp hk), mul_zero]
      rw [this, mul_zero, add_zero]
    · have hr' := mem_range.mp hr
      obtain ⟨j, rfl⟩ := Nat.exists_eq_succ_of_ne_zero e
      rw [Nat.succ_eq_add_one, hs j (by omega), Nat.add_sub_cancel]
      congr 2
      apply Finset.sum_congr rfl
      intro k _
      ring

omit [CharZero K] in
/-- the trajectory starts at the boundary state -/
theorem traj_start (hσ : Inj σ (M + 1)) (h0 : σ 0 = 0) : eval 0 (traj L c κ σ M x h) = x := by
  have e := Lagrange.eval_interpolate_at_node (s := range (M + 1)) (v := σ) (trajVal L c κ M x h) (injOn hσ)
    (mem_range.mpr (Nat.succ_pos M))
  rw [h0] at e
  unfold traj
  rw [e]
  simp [trajVal]

omit [CharZero K] in
/-- it passes through the integrated states -/
theorem traj_node (hσ : Inj σ (M + 1)) (hs : ∀ j < M, σ (j + 1) = c j) {j : ℕ} (hj : j < M) :
    eval (c j) (traj L c κ σ M x h) = x + h * ∑ k ∈ range M, eval (c j) (L k) * κ k := by
  have e := Lagrange.eval_interpolate_at_node (s := range (M + 1)) (v := σ) (trajVal L c κ M x h) (injOn hσ)
    (mem_range.mpr (by omega : j + 1 < M + 1))
  rw [hs j hj] at e
  unfold traj
  rw [e]
  simp [trajVal]

/-- its slope in local time at collocation point j is h times the state derivative there -/
theorem traj_slope (hσ : Inj σ (M + 1)) (hc : Inj c M) (h0 : σ 0 = 0) (hs : ∀ j < M, σ (j + 1) = c j)
    (hL : ∀ k < M, derivative (L k) = Lagrange.basis (range M) c k) (hL0 : ∀ k < M, eval 0 (L k) = 0)
    {j : ℕ} (hj : j < M) : eval (c j) (derivative (traj L c κ σ M x h)) = h * κ j := by
  rw [traj_poly hσ hc h0 hs hL hL0, derivative_add, derivative_C, zero_add, derivative_C_mul, derivative_sum]
  have e : ∑ k ∈ range M, derivative (C (κ k) * L k) = Lagrange.interpolate (range M) c κ := by
    rw [Lagrange.interpolate_apply]
    apply Finset.sum_congr rfl
    intro k hk
    rw [derivative_C_mul, hL k (mem_range.mp hk)]
  rw [e, eval_mul, eval_C, Lagrange.eval_interpolate_at_node κ (injOn hc) (mem_range.mpr hj)]

/-- its end is the start state plus h times the b-weighted sum of the derivatives -/
theorem traj_end (hσ : Inj σ (M + 1)) (hc : Inj c M) (h0 : σ 0 = 0) (hs : ∀ j < M, σ (j + 1) = c j)
    (hL : ∀ k < M, derivative (L k) = Lagrange.basis (range M) c k) (hL0 : ∀ k < M, eval 0 (L k) = 0) :
    eval 1 (traj L c κ σ M x h) = x + h * ∑ k ∈ range M, eval 1 (L k) * κ k := by
  rw [traj_poly hσ hc h0 hs hL hL0]
  simp only [eval_add, eval_C, eval_mul, eval_finsetSum]
  congr 2
  apply Finset.sum_congr rfl
  intro k _
  ring

end Trajectory

end Pyvc
