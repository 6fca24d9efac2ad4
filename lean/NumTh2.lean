import Mathlib
/-! Facts on primes and powers that specs/c23.py hands to the solver as instances. -/

/-- seq_step: s(k) = a^(d 2^k) mod n is the square of its predecessor -/
theorem seq_step (a d n k : ℕ) : a ^ (d * 2 ^ (k + 1)) % n = (a ^ (d * 2 ^ k) % n) * (a ^ (d * 2 ^ k) % n) % n := by
  have : d * 2 ^ (k + 1) = d * 2 ^ k + d * 2 ^ k := by ring
  rw [this, pow_add, Nat.mul_mod]

/-- seq_const: once 0 or 1, the sequence stays there -/
theorem seq_const (a d n k l : ℕ) (hn : 1 < n) (h : a ^ (d * 2 ^ k) % n ≤ 1) (hl : k ≤ l) :
    a ^ (d * 2 ^ l) % n = a ^ (d * 2 ^ k) % n := by
  induction l, hl using Nat.le_induction with
  | base => rfl
  | succ m _ ih =>
    rw [seq_step, ih]
    have : a ^ (d * 2 ^ k) % n = 0 ∨ a ^ (d * 2 ^ k) % n = 1 := by omega
    rcases this with h | h <;> rw [h] <;> simp [Nat.mod_eq_of_lt hn]

theorem fermat (b p : ℕ) (hp : p.Prime) (h0 : 0 < b) (hb : b < p) : b ^ (p - 1) % p = 1 := by
  have hc : Nat.Coprime b p := (Nat.coprime_primes_or b p hp h0 hb)
  have := Nat.ModEq.pow_totient hc
  rw [Nat.totient_prime hp] at this
  unfold Nat.ModEq at this
  rw [this, Nat.mod_eq_of_lt hp.one_lt]
where
  Nat.coprime_primes_or (b p : ℕ) (hp : p.Prime) (h0 : 0 < b) (hb : b < p) : Nat.Coprime b p :=
    ((Nat.Prime.coprime_iff_not_dvd hp).2 (fun h => absurd (Nat.le_of_dvd h0 h) (by omega))).symm

theorem factor_not_prime (n p : ℕ) (hp : 2 ≤ p) (hn : p < n) (h : n % p = 0) : ¬ n.Prime := by
  intro hq
  rcases (Nat.dvd_prime hq).1 (Nat.dvd_of_mod_eq_zero h) with h | h <;> omega

theorem small_not_prime (n : ℕ) (h : n ≤ 1) : ¬ n.Prime := fun hp => by have := hp.two_le; omega

/-- lpf_props -/
theorem lpf_props (m : ℕ) (h3 : 3 ≤ m) (ho : m % 2 = 1) (hc : ¬ m.Prime) :
    3 ≤ m.minFac ∧ m.minFac % 2 = 1 ∧ m.minFac.Prime ∧ m.minFac < m := by
  have hp : m.minFac.Prime := Nat.minFac_prime (by omega)
  have hd := m.minFac_dvd
  have h2 : m.minFac ≠ 2 := by
    intro h; rw [h] at hd; omega
  have hodd : m.minFac % 2 = 1 := by
    rcases hp.eq_two_or_odd with h | h
    · exact absurd h h2
    · exact h
  refine ⟨?_, hodd, hp, ?_⟩
  · have := hp.two_le; omega
  · rcases lt_or_eq_of_le (Nat.le_of_dvd (by omega) hd) with h | h
    · exact h
    · rw [h] at hp; exact absurd hp hc

/-- square_le -/
theorem square_le (m : ℕ) (h3 : 3 ≤ m) (hc : ¬ m.Prime) : m.minFac * m.minFac ≤ m := by
  have := Nat.minFac_sq_le_self (n := m) (by omega) hc
  nlinarith [this]

/-- sq_lt -/
theorem sq_lt (m c : ℕ) (h3 : 3 ≤ m) (hc : ¬ m.Prime) (h : m < c * c) : m.minFac < c := by
  have := square_le m h3 hc
  by_contra hge
  push Not at hge
  nlinarith

theorem composite (i t : ℕ) (hi : 2 ≤ i) (ht : 2 ≤ t) : ¬ (i * t).Prime := Nat.not_prime_mul (by omega) (by omega)

theorem odd_mul (i t : ℕ) (hi : i % 2 = 1) (ht : t % 2 = 1) : (i * t) % 2 = 1 := by
  rw [Nat.mul_mod, hi, ht]

/-- next_odd_multiple: between j = i t and j + 2 i (t odd) the only odd multiple of i is j -/
theorem next_odd_multiple (i t m : ℕ) (hi : 3 ≤ i) (ht : t % 2 = 1) (hm : m % 2 = 1) (hd : m.minFac = i)
    (h1 : i * t ≤ m) (h2 : m < i * t + 2 * i) : m = i * t := by
  obtain ⟨s, hs⟩ : i ∣ m := hd ▸ m.minFac_dvd
  have hso : s % 2 = 1 := by
    rcases Nat.mod_two_eq_zero_or_one s with h | h
    · exfalso; rw [hs, Nat.mul_mod, h] at hm; simp at hm
    · exact h
  have a1 : t ≤ s := by
    by_contra hlt; push Not at hlt
    have : i * s < i * t := Nat.mul_lt_mul_of_pos_left hlt (by omega)
    omega
  have a2 : s < t + 2 := by
    by_contra hge; push Not at hge
    have : i * (t + 2) ≤ i * s := Nat.mul_le_mul_left i hge
    have e : i * (t + 2) = i * t + 2 * i := by ring
    omega
  have : s = t := by omega
  rw [hs, this]

/-- odd_multiple_lower: with B = 2 i a the odd multiples of i from B on are B + i, B + 3 i, ... -/
theorem odd_multiple_lower (i a m : ℕ) (hi : 3 ≤ i) (hm : m % 2 = 1) (hd : m.minFac = i) (h1 : 2 * (i * a) ≤ m) :
    2 * (i * a) + i ≤ m ∧ (m = 2 * (i * a) + i ∨ 2 * (i * a) + 3 * i ≤ m) := by
  obtain ⟨s, hs⟩ : i ∣ m := hd ▸ m.minFac_dvd
  have hso : s % 2 = 1 := by
    rcases Nat.mod_two_eq_zero_or_one s with h | h
    · exfalso; rw [hs, Nat.mul_mod, h] at hm; simp at hm
    · exact h
  have e1 : 2 * (i * a) = i * (2 * a) := by ring
  have a1 : 2 * a ≤ s := by
    by_contra hlt; push Not at hlt
    have : i * s < i * (2 * a) := Nat.mul_lt_mul_of_pos_left hlt (by omega)
    omega
  have a2 : s = 2 * a + 1 ∨ 2 * a + 3 ≤ s := by omega
  rcases a2 with h | h
  · have : m = 2 * (i * a) + i := by rw [hs, h]; ring
    omega
  · have : i * (2 * a + 3) ≤ i * s := Nat.mul_le_mul_left i h
    have e : i * (2 * a + 3) = 2 * (i * a) + 3 * i := by ring
    omega

/-- the residues mod 2i of the lower bound -/
theorem lower_mod (i l : ℕ) (hi : 0 < i) : l % (2 * i) = l - 2 * (i * (l / (2 * i))) ∧ 2 * (i * (l / (2 * i))) ≤ l ∧ l < 2 * (i * (l / (2 * i))) + 2 * i := by
  have h := Nat.div_add_mod l (2 * i)
  have h2 := Nat.mod_lt l (show 0 < 2 * i by omega)
  have e : 2 * i * (l / (2 * i)) = 2 * (i * (l / (2 * i))) := by ring
  omega
