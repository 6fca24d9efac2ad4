import Mathlib

open Relation

/-- the partition after joining the classes of `a` and `b` -/
def joinRel {V : Type*} (r : V → V → Prop) (a b : V) (v w : V) : Prop := r v w ∨ (r v a ∧ r b w) ∨ (r v b ∧ r a w)

/-- joining along an edge gives exactly reachability in the graph with the additional edge -/
theorem join_closure {V : Type*} (E : V → V → Prop) (a b v w : V) :
    joinRel (EqvGen E) a b v w ↔ EqvGen (fun x y => E x y ∨ (x = a ∧ y = b)) v w := by
  have up : ∀ x y, EqvGen E x y → EqvGen (fun x y => E x y ∨ (x = a ∧ y = b)) x y :=
    fun x y h => EqvGen.mono (fun _ _ h => Or.inl h) x y h
  have ab : EqvGen (fun x y => E x y ∨ (x = a ∧ y = b)) a b := EqvGen.rel _ _ (Or.inr ⟨rfl, rfl⟩)
  constructor
  · rintro (h | ⟨h1, h2⟩ | ⟨h1, h2⟩)
    · exact up _ _ h
    · exact ((up _ _ h1).trans _ _ _ ab).trans _ _ _ (up _ _ h2)
    · exact ((up _ _ h1).trans _ _ _ (ab.symm _ _)).trans _ _ _ (up _ _ h2)
  · intro h
    have S : ∀ x y, EqvGen E x y → EqvGen E y x := fun x y h => h.symm _ _
    have T : ∀ x y z, EqvGen E x y → EqvGen E y z → EqvGen E x z := fun x y z h k => h.trans _ _ _ k
    induction h with
    | rel x y h =>
      rcases h with h | ⟨rfl, rfl⟩
      · exact Or.inl (EqvGen.rel _ _ h)
      · exact Or.inr (Or.inl ⟨EqvGen.refl _, EqvGen.refl _⟩)
    | refl x => exact Or.inl (EqvGen.refl _)
    | symm x y _ ih =>
      rcases ih with h | ⟨h1, h2⟩ | ⟨h1, h2⟩
      · exact Or.inl (S _ _ h)
      · exact Or.inr (Or.inr ⟨S _ _ h2, S _ _ h1⟩)
      · exact Or.inr (Or.inl ⟨S _ _ h2, S _ _ h1⟩)
    | trans x y z _ _ ih1 ih2 =>
      rcases ih1 with h | ⟨h1, h2⟩ | ⟨h1, h2⟩ <;> rcases ih2 with k | ⟨k1, k2⟩ | ⟨k1, k2⟩
      · exact Or.inl (T _ _ _ h k)
      · exact Or.inr (Or.inl ⟨T _ _ _ h k1, k2⟩)
      · exact Or.inr (Or.inr ⟨T _ _ _ h k1, k2⟩)
      · exact Or.inr (Or.inl ⟨h1, T _ _ _ h2 k⟩)
      · exact Or.inr (Or.inl ⟨h1, k2⟩)
      · exact Or.inl (T _ _ _ h1 k2)
      · exact Or.inr (Or.inr ⟨h1, T _ _ _ h2 k⟩)
      · exact Or.inl (T _ _ _ h1 k2)
      · exact Or.inr (Or.inr ⟨h1, k2⟩)

/-- joining two different classes reduces their number by one -/
theorem join_count {V : Type*} [Fintype V] [DecidableEq V] (f g : V → V) (a b s : V) (ha : f a ≠ f b) (hs : s = f a ∨ s = f b)
    (hg : ∀ v, g v = if f v = f a ∨ f v = f b then s else f v) :
    (Finset.univ.image g).card + 1 = (Finset.univ.image f).card := by
  have e : Finset.univ.image g = (Finset.univ.image f).erase (if s = f a then f b else f a) := by
    ext x
    simp only [Finset.mem_image, Finset.mem_univ, true_and, Finset.mem_erase]
    constructor
    · rintro ⟨v, rfl⟩
      rw [hg v]
      split_ifs with h1 h2 h2
      · exact ⟨h2 ▸ ha, a, h2.symm⟩
      · have : s = f b := hs.resolve_left h2
        exact ⟨fun h => h2 h, b, this.symm⟩
      · push Not at h1; exact ⟨h1.2, v, rfl⟩
      · push Not at h1; exact ⟨h1.1, v, rfl⟩
    · rintro ⟨h, v, rfl⟩
      split_ifs at h with h2
      · refine ⟨v, ?_⟩
        rw [hg v]
        split_ifs with h1
        · rcases h1 with h1 | h1
          · rw [h2, h1]
          · exact absurd h1 h
        · rfl
      · refine ⟨v, ?_⟩
        rw [hg v]
        split_ifs with h1
        · rcases h1 with h1 | h1
          · exact absurd h1 h
          · rw [h1]; exact hs.resolve_left h2
        · rfl
  have m : (if s = f a then f b else f a) ∈ Finset.univ.image f := by
    split_ifs <;> exact Finset.mem_image_of_mem _ (Finset.mem_univ _)
  rw [e, Finset.card_erase_add_one m]

/-- edges of the double cover -/
def D {V : Type*} (E : V → V → Prop) (p q : V × Bool) : Prop := E p.1 q.1 ∧ q.2 = !p.2

/-- a graph is two-colourable exactly if no vertex is connected with its copy in the double cover -/
theorem bipartite_iff {V : Type*} (E : V → V → Prop) :
    (∃ c : V → Bool, ∀ x y, E x y → c x ≠ c y) ↔ ∀ v, ¬ EqvGen (D E) (v, false) (v, true) := by
  constructor
  · rintro ⟨c, hc⟩ v h
    have key : ∀ p q, EqvGen (D E) p q → xor (c p.1) p.2 = xor (c q.1) q.2 := by
      intro p q h
      induction h with
      | rel p q h =>
        obtain ⟨h1, h2⟩ := h
        have := hc _ _ h1
        rw [h2]
        cases hp : c p.1 <;> cases hq : c q.1 <;> cases p.2 <;> simp_all
      | refl => rfl
      | symm _ _ _ ih => exact ih.symm
      | trans _ _ _ _ _ h1 h2 => exact h1.trans h2
    have := key _ _ h
    simp at this
  · intro h
    classical
    -- the graph itself: classes of vertices, each with a chosen root
    let s : Setoid V := ⟨fun x y => EqvGen (D E) (x, false) (y, false) ∨ EqvGen (D E) (x, false) (y, true), by
      have flip : ∀ p q, EqvGen (D E) p q → EqvGen (D E) (p.1, !p.2) (q.1, !q.2) := by
        intro p q h
        induction h with
        | rel p q h => exact EqvGen.rel _ _ ⟨h.1, by simp [h.2]⟩
        | refl => exact EqvGen.refl _
        | symm _ _ _ ih => exact ih.symm _ _
        | trans _ _ _ _ _ h1 h2 => exact h1.trans _ _ _ h2
      refine ⟨fun x => Or.inl (EqvGen.refl _), ?_, ?_⟩
      · rintro x y (h | h)
        · exact Or.inl (h.symm _ _)
        · exact Or.inr ((flip _ _ h).symm _ _)
      · rintro x y z (h | h) (k | k)
        · exact Or.inl (h.trans _ _ _ k)
        · exact Or.inr (h.trans _ _ _ k)
        · exact Or.inr (h.trans _ _ _ (flip _ _ k))
        · exact Or.inl (h.trans _ _ _ (flip _ _ k))⟩
    have flip : ∀ p q, EqvGen (D E) p q → EqvGen (D E) (p.1, !p.2) (q.1, !q.2) := by
      intro p q h
      induction h with
      | rel p q h => exact EqvGen.rel _ _ ⟨h.1, by simp [h.2]⟩
      | refl => exact EqvGen.refl _
      | symm _ _ _ ih => exact ih.symm _ _
      | trans _ _ _ _ _ h1 h2 => exact h1.trans _ _ _ h2
    let root : V → V := fun v => (Quotient.mk s v).out
    have hroot : ∀ v, s (root v) v := fun v => Quotient.exact (Quotient.out_eq _)
    refine ⟨fun v => decide (EqvGen (D E) (root v, false) (v, true)), ?_⟩
    intro x y hxy
    have e1 : EqvGen (D E) (x, false) (y, true) := EqvGen.rel _ _ ⟨hxy, rfl⟩
    have e2 : EqvGen (D E) (x, true) (y, false) := EqvGen.rel _ _ ⟨hxy, rfl⟩
    have same : root x = root y := by
      show (Quotient.mk s x).out = (Quotient.mk s y).out
      rw [Quotient.sound (s := s) (a := x) (b := y) (Or.inr e1)]
    rcases hroot x with hx | hx
    · have a1 : ¬ EqvGen (D E) (root x, false) (x, true) := fun k => h x ((hx.symm _ _).trans _ _ _ k)
      have a2 : EqvGen (D E) (root y, false) (y, true) := by rw [← same]; exact hx.trans _ _ _ e1
      simp [a1, a2]
    · have a2 : ¬ EqvGen (D E) (root y, false) (y, true) := by
        rw [← same]; intro k
        have := hx.trans _ _ _ e2
        exact h y ((this.symm _ _).trans _ _ _ k)
      simp [hx, a2]

/-- a list of distinct numbers below `N` has at most `N` entries -/
theorem fits (N n : ℕ) (O at' : ℕ → ℕ) (h : ∀ p < n, O p < N ∧ at' (O p) = p) : n ≤ N := by
  have := Fintype.card_le_of_injective (fun p : Fin n => (⟨O p, (h p p.2).1⟩ : Fin N)) (by
    intro p q e
    have e' : O p = O q := by simpa using e
    apply Fin.ext
    rw [← (h p p.2).2, ← (h q q.2).2, e'])
  simpa using this

/-- `N` distinct numbers below `N` are all of them -/
theorem covers (N : ℕ) (O at' : ℕ → ℕ) (h : ∀ p < N, O p < N ∧ at' (O p) = p) : ∀ v < N, at' v < N ∧ O (at' v) = v := by
  let f : Fin N → Fin N := fun p => ⟨O p, (h p p.2).1⟩
  have inj : Function.Injective f := by
    intro p q e
    have e' : O p = O q := by simpa [f] using e
    apply Fin.ext
    rw [← (h p p.2).2, ← (h q q.2).2, e']
  have sur := Finite.surjective_of_injective inj
  intro v hv
  obtain ⟨p, hp⟩ := sur ⟨v, hv⟩
  have e : O p = v := by simpa [f] using hp
  have := (h p p.2).2
  rw [e] at this
  rw [this]
  exact ⟨p.2, e⟩

/-- if all numbers below `N` are listed the list has at least `N` entries -/
theorem all_listed (N n : ℕ) (O at' : ℕ → ℕ) (h : ∀ v < N, at' v < n ∧ O (at' v) = v) : N ≤ n :=
  fits n N at' O h

/-- a positive prefix count has a witness -/
theorem some_root (E : ℕ → Prop) [DecidablePred E] (c : ℕ → ℤ) (h0 : c 0 = 0) (N : ℕ) (h : ∀ v < N, c (v + 1) = c v + if E v then 1 else 0) (hp : 0 < c N) :
    ∃ z < N, E z := by
  by_contra hn
  push Not at hn
  have : ∀ v ≤ N, c v = 0 := by
    intro v
    induction v with
    | zero => intro _; exact h0
    | succ v ih => intro hv; rw [h v (by omega), ih (by omega), if_neg (hn v (by omega))]; rfl
  have := this N le_rfl
  omega

/-- if every vertex of a nonempty finite set has a predecessor in the set, there is a cycle -/
theorem stuck_cycle {V : Type*} [Finite V] (E : V → V → Prop) (S : Set V) (hne : S.Nonempty) (h : ∀ v ∈ S, ∃ u ∈ S, E u v) : ∃ v, TransGen E v v := by
  classical
  obtain ⟨v0, hv0⟩ := hne
  choose! p hp using h
  have mem : ∀ n, p^[n] v0 ∈ S := by
    intro n
    induction n with
    | zero => exact hv0
    | succ n ih => rw [Function.iterate_succ_apply']; exact (hp _ ih).1
  have step : ∀ n k, TransGen E (p^[n + k + 1] v0) (p^[n] v0) := by
    intro n k
    induction k with
    | zero => rw [Nat.add_zero, Function.iterate_succ_apply']; exact TransGen.single (hp _ (mem n)).2
    | succ k ih =>
      rw [show n + (k + 1) + 1 = (n + k + 1) + 1 by ring, Function.iterate_succ_apply']
      exact TransGen.head (hp _ (mem _)).2 ih
  obtain ⟨a, b, hab, e⟩ := Finite.exists_ne_map_eq_of_infinite (fun n : ℕ => p^[n] v0)
  rcases Nat.lt_or_gt_of_ne hab with l | l
  · obtain ⟨k, rfl⟩ := Nat.exists_eq_add_of_lt l
    exact ⟨p^[a] v0, by have := step a k; rwa [← e] at this⟩
  · obtain ⟨k, rfl⟩ := Nat.exists_eq_add_of_lt l
    exact ⟨p^[b] v0, by have := step b k; rwa [e] at this⟩

/-- a graph with a topological order has no cycle -/
theorem order_acyclic {V : Type*} (E : V → V → Prop) (f : V → ℕ) (h : ∀ u v, E u v → f u < f v) : ¬ ∃ v, TransGen E v v := by
  rintro ⟨v, hv⟩
  have : ∀ a b, TransGen E a b → f a < f b := by
    intro a b hab
    induction hab with
    | single h1 => exact h _ _ h1
    | tail _ h1 ih => exact lt_trans ih (h _ _ h1)
  exact lt_irrefl _ (this v v hv)

/-- quotient and remainder are unique: a pair (a, b) with 0 ≤ b < n is determined by a * n + b -/
theorem division_unique (n a b c d : ℤ) (hb : 0 ≤ b) (hbn : b < n) (hd : 0 ≤ d) (hdn : d < n) (h : a * n + b = c * n + d) : a = c ∧ b = d := by
  have hn : 0 < n := lt_of_le_of_lt hb hbn
  have e : a = c := by
    have h1 : (a - c) * n = d - b := by linarith [sub_mul a c n]
    by_contra hne
    rcases lt_or_gt_of_ne hne with k | k
    · have : a - c ≤ -1 := by omega
      nlinarith
    · have : 1 ≤ a - c := by omega
      nlinarith
  subst e
  exact ⟨rfl, by linarith⟩

/-- the number of ordered pairs of different vertices is even -/
theorem pairs_even (n : ℤ) : ∃ h, n * (n - 1) = 2 * h := by
  obtain ⟨h, e⟩ := Int.even_mul_pred_self n
  exact ⟨h, by linarith⟩
