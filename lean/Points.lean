import Mathlib
/-! Facts that specs/c19.py hands to the solver as instances. -/

/-- three points of a rotated and shifted parabola modulo a prime are never collinear (as integer points) -/
theorem parabola (p A B a b c : ℤ) (hp : Prime p) (hr : ¬ p ∣ A * A + B * B) (ha : ¬ p ∣ a)
    (t1 t2 t3 x1 x2 x3 y1 y2 y3 dx dy f1 f2 f3 : ℤ)
    (h12 : ¬ p ∣ t1 - t2) (h13 : ¬ p ∣ t1 - t3) (h23 : ¬ p ∣ t2 - t3)
    (e1 : f1 = a * t1 * t1 + b * t1 + c) (e2 : f2 = a * t2 * t2 + b * t2 + c) (e3 : f3 = a * t3 * t3 + b * t3 + c)
    (X1 : p ∣ x1 - dx - (t1 * A - f1 * B)) (X2 : p ∣ x2 - dx - (t2 * A - f2 * B)) (X3 : p ∣ x3 - dx - (t3 * A - f3 * B))
    (Y1 : p ∣ y1 - dy - (t1 * B + f1 * A)) (Y2 : p ∣ y2 - dy - (t2 * B + f2 * A)) (Y3 : p ∣ y3 - dy - (t3 * B + f3 * A)) :
    (x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1) ≠ 0 := by
  intro h
  have k : p ∣ (A * A + B * B) * (a * ((t1 - t2) * ((t1 - t3) * (t2 - t3)))) := by
    have M : ∀ z : ℤ, p ∣ z ↔ (Ideal.Quotient.mk (Ideal.span {p})) z = 0 := fun z => by
      rw [Ideal.Quotient.eq_zero_iff_mem, Ideal.mem_span_singleton]
    subst e1 e2 e3
    rw [M] at X1 X2 X3 Y1 Y2 Y3 ⊢
    have h' := congrArg (Ideal.Quotient.mk (Ideal.span {p})) h
    simp only [map_sub, map_add, map_mul, map_zero] at X1 X2 X3 Y1 Y2 Y3 h' ⊢
    generalize (Ideal.Quotient.mk (Ideal.span {p})) x1 = x1' at *
    generalize (Ideal.Quotient.mk (Ideal.span {p})) x2 = x2' at *
    generalize (Ideal.Quotient.mk (Ideal.span {p})) x3 = x3' at *
    generalize (Ideal.Quotient.mk (Ideal.span {p})) y1 = y1' at *
    generalize (Ideal.Quotient.mk (Ideal.span {p})) y2 = y2' at *
    generalize (Ideal.Quotient.mk (Ideal.span {p})) y3 = y3' at *
    rw [sub_sub, sub_eq_zero] at X1 X2 X3 Y1 Y2 Y3
    subst X1 X2 X3 Y1 Y2 Y3
    linear_combination -h'
  rcases hp.dvd_or_dvd k with h | h
  · exact hr h
  rcases hp.dvd_or_dvd h with h | h
  · exact ha h
  rcases hp.dvd_or_dvd h with h | h
  · exact h12 h
  rcases hp.dvd_or_dvd h with h | h
  · exact h13 h
  · exact h23 h

/-- different residues, nonzero residues -/
theorem residues_differ (p s t : ℤ) (hs : 0 ≤ s) (hs' : s < p) (ht : 0 ≤ t) (ht' : t < p) (h : s ≠ t) : ¬ p ∣ s - t := by
  intro ⟨k, hk⟩
  have hp : 0 < p := lt_of_le_of_lt hs hs'
  have h1 : k < 1 := by by_contra hc; nlinarith
  have h2 : -1 < k := by by_contra hc; nlinarith
  have : k = 0 := by omega
  subst this; omega

/-- there is a prime in [d - 1, 2 d - 1) for d at least 2 (Bertrand) -/
theorem bertrand (d : ℕ) (h : 2 ≤ d) : ∃ q, q.Prime ∧ d - 1 ≤ q ∧ q < 2 * d - 1 := by
  obtain ⟨q, h1, h2, h3⟩ := Nat.exists_prime_lt_and_le_two_mul (d - 1) (by omega)
  exact ⟨q, h1, by omega, by omega⟩

/-- remainders and adding the modulus stay in the class -/
theorem rem_class (p x : ℤ) : p ∣ x % p - x ∧ p ∣ x % p - p - x ∧ p ∣ x % p + p - x ∧ (x % p = 0 ↔ p ∣ x) := by
  have h : p ∣ x % p - x := by
    have := Int.emod_add_mul_ediv x p
    exact ⟨-(x / p), by linarith⟩
  refine ⟨h, ?_, ?_, Int.dvd_iff_emod_eq_zero.symm⟩
  · have := dvd_sub h (dvd_refl p); rwa [show x % p - x - p = x % p - p - x by ring] at this
  · have := dvd_add h (dvd_refl p); rwa [show x % p - x + p = x % p + p - x by ring] at this
