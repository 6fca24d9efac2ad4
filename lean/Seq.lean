import Mathlib
open Finset

/-- sum of telescoping differences plus a constant -/
theorem telescope (r c : ℕ → ℤ) (m : ℤ) (k : ℕ) (hk : 0 < k)
    (h0 : r 0 = c 0 + m) (h : ∀ j, 0 < j → j < k → r j = c j - c (j - 1) + m) :
    ∑ j ∈ range k, r j = c (k - 1) + k * m := by
  induction k with
  | zero => omega
  | succ n ih =>
    rcases Nat.eq_zero_or_pos n with rfl | hn
    · simp [h0]
    · rw [sum_range_succ, ih hn (fun j a b => h j a (by omega)), h n hn (by omega)]
      have : n + 1 - 1 = n := by omega
      rw [this]; push_cast; ring

theorem div_mul_bound (n m k : ℤ) (hm : 0 < m) (h : k ≤ n / m) : m * k ≤ n := by
  have := Int.mul_ediv_self_le (x := n) (k := m) (by omega)
  nlinarith

/-- product of two nonnegative numbers with given sum -/
theorem amgm (a b s : ℤ) (h : a + b = s) : 4 * (a * b) ≤ s * s := by
  subst h; nlinarith [sq_nonneg (a - b)]

/-- prefix sums of positive numbers are monotone -/
theorem prefix_mono (c S : ℕ → ℤ) (m : ℕ) (h0 : S 0 = 0) (hs : ∀ i < m, S (i + 1) = S i + c i) (hp : ∀ i < m, 0 < c i) :
    ∀ i ≤ m, 0 ≤ S i ∧ S i ≤ S m := by
  have mono : ∀ d i, i + d ≤ m → S i ≤ S (i + d) := by
    intro d
    induction d with
    | zero => intro i _; simp
    | succ d ih =>
      intro i hi
      have := ih i (by omega)
      have a := hs (i + d) (by omega)
      have b := hp (i + d) (by omega)
      rw [show i + (d + 1) = i + d + 1 by ring]; omega
  intro i hi
  constructor
  · have := mono i 0 (by omega); simpa [h0] using this
  · have := mono (m - i) i (by omega); rwa [show i + (m - i) = m by omega] at this

/-- a permutation keeps the number of elements with a property -/
theorem perm_count (n : ℕ) (a b : Fin n → ℤ) (p : Equiv.Perm (Fin n)) (h : ∀ k, b k = a (p k)) :
    (univ.filter fun k => 0 ≤ b k).card = (univ.filter fun k => 0 ≤ a k).card := by
  apply card_bij (fun k _ => p k)
  · intro k hk; simp only [mem_filter, mem_univ, true_and] at *; rwa [← h k]
  · intro x _ y _ e; exact p.injective e
  · intro y hy; refine ⟨p.symm y, ?_, by simp⟩
    simp only [mem_filter, mem_univ, true_and] at *; rw [h]; simpa using hy

/-- complementary arrays: as many free values as free places -/
theorem compl_count (n : ℕ) (a r : Fin n → ℤ) (h : ∀ k, (0 ≤ a k) ↔ (r k < 0)) :
    (univ.filter fun k => 0 ≤ a k).card = (univ.filter fun k => r k < 0).card := by
  congr 1; ext k; simp [h k]
