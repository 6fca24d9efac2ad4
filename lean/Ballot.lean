import Mathlib

/-- number of ways to complete a bracket sequence with `d` open brackets and `b` brackets still to be opened -/
def M : ℕ → ℕ → ℕ
  | _, 0 => 1
  | 0, b + 1 => M 1 b
  | d + 1, b + 1 => M (d + 2) b + M d (b + 1)
termination_by d b => (2 * b + d, b)

theorem closed (b : ℕ) : ∀ d, (d + b + 1) * M d b = (d + 1) * (2 * b + d).choose b := by
  induction b with
  | zero => intro d; simp [M]
  | succ b ih =>
    intro d
    induction d with
    | zero =>
      have h := ih 1
      have e : (2 * (b + 1) + 0).choose (b + 1) = (2 * b + 1).choose b + (2 * b + 1).choose (b + 1) := by
        rw [show 2 * (b + 1) + 0 = (2 * b + 1) + 1 by ring, Nat.choose_succ_succ]
      have s : (2 * b + 1).choose (b + 1) = (2 * b + 1).choose b := Nat.choose_symm_half b
      rw [M, e, s]; nlinarith
    | succ d ihd =>
      have h1 := ih (d + 2)
      have e : (2 * (b + 1) + (d + 1)).choose (b + 1) = (2 * b + d + 2).choose b + (2 * b + d + 2).choose (b + 1) := by
        rw [show 2 * (b + 1) + (d + 1) = (2 * b + d + 2) + 1 by ring, Nat.choose_succ_succ]
      have r : (2 * b + d + 2).choose (b + 1) * (b + 1) = (2 * b + d + 2).choose b * (b + d + 2) := by
        have := Nat.choose_succ_right_eq (2 * b + d + 2) b
        rw [this]; congr 1; omega
      rw [M, e]
      rw [show 2 * b + (d + 2) = 2 * b + d + 2 by ring] at h1
      rw [show 2 * (b + 1) + d = 2 * b + d + 2 by ring] at ihd
      generalize (2 * b + d + 2).choose b = X at *
      generalize (2 * b + d + 2).choose (b + 1) = Y at *
      generalize M (d + 2) b = P at *
      generalize M d (b + 1) = Q at *
      have hpos : 0 < d + b + 2 := by omega
      apply Nat.eq_of_mul_eq_mul_left hpos
      zify at *
      linear_combination ((d : ℤ) + b + 2) * h1 + ((d : ℤ) + b + 3) * ihd - r

/-- the share of completions that open a bracket next is (b * (d+2)) / ((2b+d) * (d+1)) -/
theorem open_share (c d : ℕ) : (2 * (c + 1) + d) * (d + 1) * M (d + 1) c = (c + 1) * (d + 2) * M d (c + 1) := by
  have h1 := closed c (d + 1)
  have h2 := closed (c + 1) d
  have h3 := Nat.add_one_mul_choose_eq (2 * c + d + 1) c
  rw [show 2 * c + (d + 1) = 2 * c + d + 1 by ring] at h1
  rw [show 2 * (c + 1) + d = 2 * c + d + 1 + 1 by ring] at h2 ⊢
  generalize (2 * c + d + 1).choose c = X at *
  generalize (2 * c + d + 1 + 1).choose (c + 1) = Y at *
  have hpos : 0 < d + c + 2 := by omega
  apply Nat.eq_of_mul_eq_mul_left hpos
  zify at *
  linear_combination ((2 : ℤ) * c + d + 2) * (d + 1) * h1 - ((c : ℤ) + 1) * (d + 2) * h2 + ((d:ℤ)+1)*(d+2)* h3
