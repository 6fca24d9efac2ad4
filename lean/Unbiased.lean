import Mathlib
/-! specs/c10.py: the accepted draws hit every value of the range equally often -/

theorem neg_mod (s W : ℕ) (h : s ≤ W) : (W - s) % s = W % s := (Nat.mod_eq_sub_mod h).symm

theorem mul_high (x s W : ℕ) (hx : x < W) (hs : 0 < s) : x * s / W < s := by
  rw [Nat.div_lt_iff_lt_mul (by omega)]
  rw [mul_comm s W]
  exact Nat.mul_lt_mul_of_pos_right hx hs

/-- for every k < s exactly W / s of the draws x < W are accepted and mapped to k -/
theorem unbiased (s W k : ℕ) (hs : 0 < s) (hW : 0 < W) (hk : k < s) :
    ((Finset.range W).filter (fun x => x * s / W = k ∧ W % s ≤ x * s % W)).card = W / s := by
  set c := (k * W + W % s + s - 1) / s with hc
  have key : (Finset.range W).filter (fun x => x * s / W = k ∧ W % s ≤ x * s % W) = Finset.Ico c (c + W / s) := by
    ext x
    simp only [Finset.mem_filter, Finset.mem_range, Finset.mem_Ico]
    have hq : s * (W / s) + W % s = W := Nat.div_add_mod W s
    have h1 : c ≤ x ↔ k * W + W % s ≤ x * s := by
      rw [hc, Nat.div_le_iff_le_mul_add_pred hs]
      rw [mul_comm s x]
      omega
    have h2 : x < c + W / s ↔ x * s < k * W + W := by
      have e1 : x < c + W / s ↔ ¬ (c + W / s ≤ x) := by omega
      have e2 : c + W / s = (k * W + W + s - 1) / s := by
        rw [hc, ← Nat.add_mul_div_left _ _ hs]
        congr 1
        omega
      rw [e1, e2, Nat.div_le_iff_le_mul_add_pred hs, mul_comm s x]
      omega
    constructor
    · rintro ⟨_, h3, h4⟩
      have hd := Nat.div_add_mod (x * s) W
      have hm := Nat.mod_lt (x * s) hW
      rw [h3] at hd
      have : W * k = k * W := mul_comm W k
      exact ⟨h1.2 (by omega), h2.2 (by omega)⟩
    · rintro ⟨h3, h4⟩
      have a := h1.1 h3
      have b := h2.1 h4
      have hd : x * s / W = k := by
        apply Nat.div_eq_of_lt_le
        · omega
        · rw [add_mul]; omega
      have hd2 := Nat.div_add_mod (x * s) W
      rw [hd] at hd2
      have : W * k = k * W := mul_comm W k
      refine ⟨?_, hd, by omega⟩
      by_contra hx
      push Not at hx
      have hh : W * s ≤ x * s := Nat.mul_le_mul_right s hx
      have hk2 : (k + 1) * W ≤ s * W := Nat.mul_le_mul_right W hk
      rw [add_mul] at hk2
      have : W * s = s * W := mul_comm W s
      omega
  rw [key]
  simp
