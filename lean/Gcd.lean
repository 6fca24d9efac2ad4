import Mathlib.Data.Int.GCD
import Mathlib.Data.Int.ModEq
import Mathlib.RingTheory.Int.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring

/-! Lemmas used by specs/c22.py -/
namespace Gcd

theorem gcd_zero (b : ℤ) (hb : 0 ≤ b) : (Int.gcd 0 b : ℤ) = b := by
  simp [hb]

theorem gcd_emod (a b : ℤ) : Int.gcd a (b % a) = Int.gcd a b := by
  conv_rhs => rw [← Int.emod_add_mul_ediv b a]
  rw [Int.gcd_add_mul_left_right]

theorem gcd_rec (a b : ℤ) : Int.gcd a b = Int.gcd (b % a) a := by
  rw [Int.gcd_comm (b % a) a, gcd_emod]

theorem gcd_pos (a b : ℤ) (hb : 0 < b) : 1 ≤ Int.gcd a b :=
  Int.gcd_pos_of_ne_zero_right a (by omega)

/-- n has an inverse modulo m iff gcd (n % m) m = 1 -/
theorem invertible_iff_gcd (n m : ℤ) : (∃ r, (n * r) % m = 1 % m) ↔ Int.gcd (n % m) m = 1 := by
  rw [Int.gcd_comm, gcd_emod, Int.gcd_comm]
  constructor
  · rintro ⟨r, hr⟩
    have h : m ∣ n * r - 1 := Int.ModEq.dvd (show (1 : ℤ) ≡ n * r [ZMOD m] from hr.symm)
    obtain ⟨k, hk⟩ := h
    rw [← Int.isCoprime_iff_gcd_eq_one]
    exact ⟨r, -k, by linarith⟩
  · intro h
    obtain ⟨x, y, hxy⟩ := Int.isCoprime_iff_gcd_eq_one.mpr h
    refine ⟨x, ?_⟩
    have : n * x = 1 + m * (-y) := by linarith
    rw [this, Int.add_mul_emod_self_left]

theorem bezout_inv (n m X y : ℤ) (h : X * (n % m) + y * m = 1) : (n * (X % m)) % m = 1 % m := by
  rw [Int.mul_emod, Int.emod_emod, ← Int.mul_emod]
  have e : n * X = 1 + m * (X * (n / m) - y) := by
    have := Int.emod_add_mul_ediv n m
    calc n * X = (n % m + m * (n / m)) * X := by rw [this]
      _ = X * (n % m) + y * m + m * (X * (n / m) - y) := by ring
      _ = _ := by rw [h]
  rw [e, Int.add_mul_emod_self_left]

end Gcd
