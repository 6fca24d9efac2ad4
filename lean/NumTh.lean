import Mathlib.Data.Int.ModEq
import Mathlib.Data.Nat.ModEq
import Mathlib.Tactic.Ring
import Mathlib.Tactic.NormNum

/-! Lemmas used by specs/numth.py (all over natural numbers; the specs use them for non-negative integers). -/

namespace NumTh

/-- the function `powmod` of the specs -/
def P (b e m : ℕ) : ℕ := b ^ e % m

theorem pow_zero' (b m : ℕ) : P b 0 m = 1 % m := by simp [P]

theorem pow_step (b e m : ℕ) :
    P b e m = if e % 2 = 1 then (b * P ((b * b) % m) (e / 2) m) % m else P ((b * b) % m) (e / 2) m := by
  unfold P
  have h2 : ((b * b) % m) ^ (e / 2) % m = b ^ (2 * (e / 2)) % m := by
    rw [← Nat.pow_mod, ← pow_two, ← pow_mul]
  split
  · next h =>
    rw [h2, Nat.mul_mod, Nat.mod_mod, ← Nat.mul_mod, ← pow_succ']
    congr 2; omega
  · next h =>
    rw [h2]; congr 2; omega

theorem pow_range (b e m : ℕ) (hm : 0 < m) : P b e m < m := Nat.mod_lt _ hm

theorem mod_assoc (b r p m : ℕ) :
    ((b * r) % m * p) % m = (r * ((b * p) % m)) % m ∧ ((r * b) % m * p) % m = (r * ((b * p) % m)) % m := by
  constructor
  · rw [Nat.mod_mul_mod, Nat.mul_mod_mod]; congr 1; ring
  · rw [Nat.mod_mul_mod, Nat.mul_mod_mod]; congr 1; ring

theorem mod_one (r m : ℕ) : (r * (1 % m)) % m = r % m := by rw [Nat.mul_mod_mod, Nat.mul_one]

theorem one_mod (r m : ℕ) (h : r < m) : ((1 % m) * r) % m = r := by
  rw [Nat.mod_mul_mod, Nat.one_mul, Nat.mod_eq_of_lt h]

end NumTh
