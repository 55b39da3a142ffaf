import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Field.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp
/-! The recursions that the loop invariants of the LU solver establish (m1band.py) imply `A x = b`.
V k: the elements after k elimination steps (N steps are made, n-1 ≤ N ≤ n); F = V N: the factors;
B k: the vector after k forward columns (M columns, n-1 ≤ M ≤ n); C k: the vector after k backward columns. -/
open Finset
theorem lu_solves (n N M : ℕ) (hN : n - 1 ≤ N) (hNn : N ≤ n) (hM : n - 1 ≤ M) (_hMn : M ≤ n)
    (V : ℕ → ℕ → ℕ → ℝ) (B C : ℕ → ℕ → ℝ)
    (hV : ∀ k, k < N → ∀ i j, i < n → j < n → V (k+1) i j =
      if i ≤ k ∨ j < k then V k i j else if j = k then V k i k / V k k k
      else V k i j - V k i k / V k k k * V k k j)
    (hp : ∀ k, k < n → V k k k ≠ 0)
    (hB : ∀ k, k < M → ∀ i, i < n → B (k+1) i = if k < i then B k i - V N i k * B k k else B k i)
    (hC0 : ∀ i, i < n → C 0 i = B M i)
    (hC : ∀ k, k < n → ∀ i, i < n → C (k+1) i =
      if n - 1 - k < i then C k i else if i = n - 1 - k then C k i / V N i i
      else C k i - V N i (n-1-k) * (C k (n-1-k) / V N (n-1-k) (n-1-k))) :
    ∀ i, i < n → ∑ j ∈ range n, V 0 i j * C n j = B 0 i := by
  -- rows are frozen
  have r1 : ∀ d i j, i < n → j < n → i + d ≤ N → V (i+d) i j = V i i j := by
    intro d; induction d with
    | zero => intros; rfl
    | succ d ih =>
      intro i j hi hj h
      rw [← add_assoc, hV (i+d) (by omega) i j hi hj, if_pos (Or.inl (by omega)), ih i j hi hj (by omega)]
  have FU : ∀ i j, i < n → j < n → V N i j = V i i j := by
    intro i j hi hj
    have h := r1 (N - i) i j hi hj (by omega)
    rwa [show i + (N - i) = N by omega] at h
  -- columns are frozen
  have r2 : ∀ d i j, i < n → j < n → j + 1 + d ≤ N → V (j+1+d) i j = V (j+1) i j := by
    intro d; induction d with
    | zero => intros; rfl
    | succ d ih =>
      intro i j hi hj h
      rw [← add_assoc, hV (j+1+d) (by omega) i j hi hj, if_pos (Or.inr (by omega)), ih i j hi hj (by omega)]
  have FL : ∀ i j, i < n → j < i → V N i j = V j i j / V j j j := by
    intro i j hi hj
    have h := r2 (N - (j+1)) i j hi (by omega) (by omega)
    rw [show j + 1 + (N - (j+1)) = N by omega] at h
    rw [h, hV j (by omega) i j hi (by omega), if_neg (by omega), if_pos rfl]
  have L3 : ∀ m i j, i < n → j < n → m ≤ i → m ≤ j → V 0 i j = V m i j + ∑ k ∈ range m, V N i k * V N k j := by
    intro m; induction m with
    | zero => intros; simp
    | succ m ih =>
      intro i j hi hj h1 h2
      rw [ih i j hi hj (by omega) (by omega), sum_range_succ, hV m (by omega) i j hi hj, if_neg (by omega), if_neg (by omega),
        FL i m hi (by omega), FU m j (by omega) hj]
      ring
  let L : ℕ → ℕ → ℝ := fun i k => if k < i then V N i k else if k = i then 1 else 0
  let U : ℕ → ℕ → ℝ := fun k j => if k ≤ j then V N k j else 0
  have LU : ∀ i j, i < n → j < n → V 0 i j = ∑ k ∈ range n, L i k * U k j := by
    intro i j hi hj
    by_cases hij : i ≤ j
    · rw [L3 i i j hi hj le_rfl hij]
      have hs : ∑ k ∈ range n, L i k * U k j = ∑ k ∈ range (i+1), L i k * U k j := by
        symm; apply sum_subset
        · intro x hx; simp only [mem_range] at *; omega
        · intro x _ hx2; simp only [mem_range] at *
          simp only [L]; rw [if_neg (by omega), if_neg (by omega), zero_mul]
      rw [hs, sum_range_succ]
      have h1 : L i i * U i j = V i i j := by simp only [L, U]; rw [if_neg (by omega)]; simp [hij, FU i j hi hj]
      have h2 : ∑ k ∈ range i, L i k * U k j = ∑ k ∈ range i, V N i k * V N k j := by
        apply sum_congr rfl; intro k hk; simp only [mem_range] at hk
        simp only [L, U]; rw [if_pos hk, if_pos (by omega)]
      rw [h1, h2]; ring
    · have hji : j < i := by omega
      rw [L3 j i j hi hj (by omega) le_rfl]
      have hs : ∑ k ∈ range n, L i k * U k j = ∑ k ∈ range (j+1), L i k * U k j := by
        symm; apply sum_subset
        · intro x hx; simp only [mem_range] at *; omega
        · intro x _ hx2; simp only [mem_range] at *
          simp only [U]; rw [if_neg (by omega), mul_zero]
      rw [hs, sum_range_succ]
      have h1 : L i j * U j j = V j i j := by
        simp only [L, U]; rw [if_pos hji, if_pos le_rfl, FL i j hi hji, FU j j hj hj]
        exact div_mul_cancel₀ _ (hp j hj)
      have h2 : ∑ k ∈ range j, L i k * U k j = ∑ k ∈ range j, V N i k * V N k j := by
        apply sum_congr rfl; intro k hk; simp only [mem_range] at hk
        simp only [L, U]; rw [if_pos (by omega), if_pos (by omega)]
      rw [h1, h2]; ring
  -- forward
  have B1 : ∀ m i, i < n → m ≤ i → B m i = B 0 i - ∑ k ∈ range m, V N i k * B k k := by
    intro m; induction m with
    | zero => intros; simp
    | succ m ih =>
      intro i hi h
      rw [hB m (by omega) i hi, if_pos (by omega), ih i hi (by omega), sum_range_succ]; ring
  have B2 : ∀ d i, i < n → i + d ≤ M → B (i+d) i = B i i := by
    intro d; induction d with
    | zero => intros; rfl
    | succ d ih =>
      intro i hi h
      rw [← add_assoc, hB (i+d) (by omega) i hi, if_neg (by omega), ih i hi (by omega)]
  have y0 : ∀ i, i < n → C 0 i = B i i := by
    intro i hi
    have h := B2 (M - i) i hi (by omega)
    rw [show i + (M - i) = M by omega] at h
    rw [hC0 i hi, h]
  -- backward
  have C2 : ∀ d j, j < n → d ≤ j → C (n - j + d) j = C (n - j) j := by
    intro d; induction d with
    | zero => intros; rfl
    | succ d ih =>
      intro j hj h
      rw [← add_assoc, hC (n-j+d) (by omega) j hj, if_pos (by omega), ih j hj (by omega)]
  have X : ∀ j, j < n → C n j = C (n - 1 - j) j / V N j j := by
    intro j hj
    have h := C2 j j hj le_rfl
    rw [show n - j + j = n by omega] at h
    have h2 := hC (n-1-j) (by omega) j hj
    rw [show n - 1 - j + 1 = n - j by omega, show n - 1 - (n - 1 - j) = j by omega] at h2
    rw [h, h2, if_neg (by omega), if_pos rfl]
  have C1 : ∀ k i, i < n → k ≤ n - 1 - i → C k i = B i i - ∑ j ∈ Ico (n-k) n, V N i j * C n j := by
    intro k; induction k with
    | zero => intro i hi _; simp [y0 i hi]
    | succ k ih =>
      intro i hi h
      have h2 := hC k (by omega) i hi
      rw [if_neg (by omega), if_neg (by omega)] at h2
      rw [h2, ih i hi (by omega), sum_eq_sum_Ico_succ_bot (show n - (k+1) < n by omega), show n - (k+1) + 1 = n - k by omega,
        show n - (k+1) = n - 1 - k by omega, X (n-1-k) (by omega), show n - 1 - (n - 1 - k) = k by omega]
      ring
  have y : ∀ i, i < n → ∑ j ∈ range n, U i j * C n j = B i i := by
    intro i hi
    have hs : ∑ j ∈ range n, U i j * C n j = ∑ j ∈ Ico i n, V N i j * C n j := by
      have e : ∑ j ∈ Ico i n, V N i j * C n j = ∑ j ∈ Ico i n, U i j * C n j := by
        apply sum_congr rfl; intro j hj; simp only [mem_Ico] at hj; simp only [U]; rw [if_pos hj.1]
      rw [e]; symm; apply sum_subset
      · intro x hx; simp only [mem_Ico, mem_range] at *; omega
      · intro x hx1 hx2; simp only [mem_Ico, mem_range] at *
        simp only [U]; rw [if_neg (by omega), zero_mul]
    rw [hs, sum_eq_sum_Ico_succ_bot hi]
    have h := C1 (n-1-i) i hi le_rfl
    rw [show n - (n - 1 - i) = i + 1 by omega] at h
    have h0 : V N i i ≠ 0 := by rw [FU i i hi hi]; exact hp i hi
    rw [X i hi, h, mul_div_cancel₀ _ h0]; ring
  intro i hi
  calc ∑ j ∈ range n, V 0 i j * C n j
      = ∑ j ∈ range n, ∑ k ∈ range n, L i k * (U k j * C n j) := by
        apply sum_congr rfl; intro j hj; simp only [mem_range] at hj
        rw [LU i j hi hj, sum_mul]; apply sum_congr rfl; intros; ring
    _ = ∑ k ∈ range n, ∑ j ∈ range n, L i k * (U k j * C n j) := sum_comm
    _ = ∑ k ∈ range n, L i k * B k k := by
        apply sum_congr rfl; intro k hk; simp only [mem_range] at hk
        rw [← mul_sum, y k hk]
    _ = ∑ k ∈ range (i+1), L i k * B k k := by
        symm; apply sum_subset
        · intro x hx; simp only [mem_range] at *; omega
        · intro x _ hx2; simp only [mem_range] at *
          simp only [L]; rw [if_neg (by omega), if_neg (by omega), zero_mul]
    _ = B 0 i := by
        rw [sum_range_succ]
        have h1 : L i i * B i i = B i i := by simp only [L]; rw [if_neg (by omega)]; simp
        have h2 : ∑ k ∈ range i, L i k * B k k = ∑ k ∈ range i, V N i k * B k k := by
          apply sum_congr rfl; intro k hk; simp only [mem_range] at hk; simp only [L]; rw [if_pos hk]
        rw [h1, h2, B1 i i hi le_rfl]; ring
