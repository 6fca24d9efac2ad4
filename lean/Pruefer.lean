import Mathlib
/-! The order in which a Pruefer code removes the vertices: the facts that specs/c43.py uses about OCC, REM and POS are those of a total definition. -/

/-- occurrences of `v` in the code from position `k` on -/
def occ (L : ℕ) (c : ℕ → ℕ) (k v : ℕ) : ℕ := ((Finset.Ico k L).filter (fun i => c i = v)).card

/-- the least vertex that is not in `s` and does not occur any more -/
noncomputable def pick (L : ℕ) (c : ℕ → ℕ) (k : ℕ) (s : Finset ℕ) : ℕ := sInf {v | v ∉ s ∧ occ L c k v = 0}

/-- the vertices removed before step `k` -/
noncomputable def gone (L : ℕ) (c : ℕ → ℕ) : ℕ → Finset ℕ
  | 0 => ∅
  | k + 1 => insert (pick L c k (gone L c k)) (gone L c k)

noncomputable def rem (L : ℕ) (c : ℕ → ℕ) (k : ℕ) : ℕ := pick L c k (gone L c k)

theorem occ_mono (L : ℕ) (c : ℕ → ℕ) {j k : ℕ} (h : j ≤ k) (v : ℕ) : occ L c k v ≤ occ L c j v := by
  unfold occ
  exact Finset.card_le_card (Finset.filter_subset_filter _ (Finset.Ico_subset_Ico_left h))

theorem occ_le (L : ℕ) (c : ℕ → ℕ) (v : ℕ) : occ L c 0 v ≤ L := by
  unfold occ
  exact (Finset.card_filter_le _ _).trans (by simp)

theorem occ_end (L : ℕ) (c : ℕ → ℕ) (k v : ℕ) (h : L ≤ k) : occ L c k v = 0 := by
  unfold occ
  rw [Finset.Ico_eq_empty_of_le h]
  simp

theorem occ_step (L : ℕ) (c : ℕ → ℕ) (k v : ℕ) (h : k < L) : occ L c k v = occ L c (k + 1) v + if c k = v then 1 else 0 := by
  unfold occ
  rw [← Finset.insert_Ico_succ_left_eq_Ico h, Finset.filter_insert]
  split_ifs with hc
  · rw [Finset.card_insert_of_notMem]
    · rfl
    · simp
  · rfl

theorem exists_pick (L : ℕ) (c : ℕ → ℕ) (k : ℕ) (s : Finset ℕ) (hk : k < L + 2) (hs : s.card ≤ k) :
    ∃ v < L + 2, v ∉ s ∧ occ L c k v = 0 := by
  by_contra hcon
  push Not at hcon
  have sub : Finset.range (L + 2) ⊆ s ∪ (Finset.Ico k L).image c := by
    intro v hv
    rw [Finset.mem_range] at hv
    by_cases h : v ∈ s
    · exact Finset.mem_union_left _ h
    · apply Finset.mem_union_right
      have h1 := hcon v hv h
      unfold occ at h1
      obtain ⟨i, hi⟩ := Finset.card_ne_zero.mp h1
      rw [Finset.mem_filter] at hi
      exact Finset.mem_image.mpr ⟨i, hi.1, hi.2⟩
  have h2 := Finset.card_le_card sub
  have h3 := (Finset.card_union_le s ((Finset.Ico k L).image c)).trans (Nat.add_le_add hs (Finset.card_image_le))
  rw [Finset.card_range] at h2
  rw [Nat.card_Ico] at h3
  omega

theorem pick_spec (L : ℕ) (c : ℕ → ℕ) (k : ℕ) (s : Finset ℕ) (hk : k < L + 2) (hs : s.card ≤ k) :
    pick L c k s < L + 2 ∧ pick L c k s ∉ s ∧ occ L c k (pick L c k s) = 0 := by
  obtain ⟨v, hv, h⟩ := exists_pick L c k s hk hs
  have hm : sInf {v | v ∉ s ∧ occ L c k v = 0} ∈ {v | v ∉ s ∧ occ L c k v = 0} := Nat.sInf_mem ⟨v, h⟩
  have hl : sInf {v | v ∉ s ∧ occ L c k v = 0} ≤ v := Nat.sInf_le h
  exact ⟨lt_of_le_of_lt hl hv, hm.1, hm.2⟩

theorem gone_card (L : ℕ) (c : ℕ → ℕ) (k : ℕ) : (gone L c k).card ≤ k := by
  induction k with
  | zero => simp [gone]
  | succ k ih => exact (Finset.card_insert_le _ _).trans (Nat.succ_le_succ ih)

theorem mem_gone (L : ℕ) (c : ℕ → ℕ) (k v : ℕ) : v ∈ gone L c k ↔ ∃ j < k, rem L c j = v := by
  induction k with
  | zero => simp [gone]
  | succ k ih =>
    rw [gone, Finset.mem_insert, ih]
    constructor
    · rintro (rfl | ⟨j, hj, rfl⟩)
      · exact ⟨k, Nat.lt_succ_self k, rfl⟩
      · exact ⟨j, Nat.lt_succ_of_lt hj, rfl⟩
    · rintro ⟨j, hj, rfl⟩
      rcases Nat.lt_succ_iff_lt_or_eq.mp hj with h | rfl
      · exact Or.inr ⟨j, h, rfl⟩
      · exact Or.inl rfl

theorem rem_spec (L : ℕ) (c : ℕ → ℕ) (k : ℕ) (hk : k < L + 2) :
    rem L c k < L + 2 ∧ (∀ j < k, rem L c j ≠ rem L c k) ∧ occ L c k (rem L c k) = 0 := by
  have h := pick_spec L c k (gone L c k) hk (gone_card L c k)
  refine ⟨h.1, fun j hj e => h.2.1 ?_, h.2.2⟩
  exact (mem_gone L c k _).mpr ⟨j, hj, e⟩

theorem rem_inj (L : ℕ) (c : ℕ → ℕ) (j k : ℕ) (hj : j < L + 2) (hk : k < L + 2) (e : rem L c j = rem L c k) : j = k := by
  rcases lt_trichotomy j k with h | h | h
  · exact absurd e ((rem_spec L c k hk).2.1 j h)
  · exact h
  · exact absurd e.symm ((rem_spec L c j hj).2.1 k h)

/-- the facts used, all at once -/
theorem pruefer_order (L : ℕ) (c : ℕ → ℕ) : ∃ (OCC : ℕ → ℕ → ℕ) (REM POS : ℕ → ℕ),
    (∀ k v, OCC k v ≤ OCC 0 v ∧ OCC 0 v ≤ L ∧ (L ≤ k → OCC k v = 0)) ∧
    (∀ k v, k < L → OCC k v = OCC (k + 1) v + if c k = v then 1 else 0) ∧
    (∀ k, k < L + 2 → REM k < L + 2 ∧ POS (REM k) = k ∧ OCC k (REM k) = 0) ∧
    (∀ v, v < L + 2 → POS v < L + 2 ∧ REM (POS v) = v) ∧
    (∀ k v, k < L + 2 → v < REM k → POS v < k ∨ OCC k v > 0) ∧
    (∀ k v, v < L + 2 → POS v ≤ k → k < L + 2 → OCC k v = 0) := by
  have surj : ∀ v, v < L + 2 → ∃ k, k < L + 2 ∧ rem L c k = v := by
    intro v hv
    have hi : (Finset.range (L + 2)).image (rem L c) = Finset.range (L + 2) := by
      apply Finset.eq_of_subset_of_card_le
      · intro x hx
        obtain ⟨k, hk, rfl⟩ := Finset.mem_image.mp hx
        exact Finset.mem_range.mpr (rem_spec L c k (Finset.mem_range.mp hk)).1
      · rw [Finset.card_image_of_injOn]
        intro a ha b hb e
        exact rem_inj L c a b (Finset.mem_range.mp (Finset.mem_coe.mp ha)) (Finset.mem_range.mp (Finset.mem_coe.mp hb)) e
    have := Finset.mem_range.mpr hv
    rw [← hi] at this
    obtain ⟨k, hk, h⟩ := Finset.mem_image.mp this
    exact ⟨k, Finset.mem_range.mp hk, h⟩
  choose! pos hpos using surj
  have posrem : ∀ k, k < L + 2 → pos (rem L c k) = k := fun k hk =>
    rem_inj L c _ _ (hpos _ (rem_spec L c k hk).1).1 hk (hpos _ (rem_spec L c k hk).1).2
  refine ⟨occ L c, rem L c, pos, fun k v => ⟨occ_mono L c (Nat.zero_le k) v, occ_le L c v, occ_end L c k v⟩, fun k v h => occ_step L c k v h,
    fun k hk => ⟨(rem_spec L c k hk).1, posrem k hk, (rem_spec L c k hk).2.2⟩, fun v hv => hpos v hv, fun k v hk hv => ?_, fun k v hv hp hk => ?_⟩
  · by_cases hm : v ∈ gone L c k
    · obtain ⟨j, hj, rfl⟩ := (mem_gone L c k v).mp hm
      exact Or.inl (by rw [posrem j (hj.trans hk)]; exact hj)
    · right
      by_contra h0
      have : sInf {v | v ∉ gone L c k ∧ occ L c k v = 0} ≤ v := Nat.sInf_le ⟨hm, by omega⟩
      exact absurd hv (not_lt.mpr this)
  · have h1 := (rem_spec L c (pos v) (hpos v hv).1).2.2
    rw [(hpos v hv).2] at h1
    have := occ_mono L c hp v
    omega

/-- the block of a position is unique -/
theorem block_unique (S q v b o : ℤ) (hb : v - 1 = b * S + o) (ho : 0 ≤ o) (ho' : o < S) (h1 : 1 + q * S ≤ v) (h2 : v < 1 + q * S + S) : b = q ∧ o = v - 1 - q * S := by
  have hS : 0 < S := by omega
  have h3 : b = q := by
    have e1 : b * S < (q + 1) * S := by linarith
    have e2 : q * S < (b + 1) * S := by linarith
    have l1 := lt_of_mul_lt_mul_right e1 hS.le
    have l2 := lt_of_mul_lt_mul_right e2 hS.le
    omega
  subst h3
  exact ⟨rfl, by omega⟩

/-- positions before the q-th block are in earlier blocks -/
theorem block_before (S q v b o : ℤ) (hb : v - 1 = b * S + o) (ho : 0 ≤ o) (ho' : o < S) (h2 : v < 1 + q * S) : b < q := by
  have hS : 0 < S := by omega
  exact lt_of_mul_lt_mul_right (by linarith : b * S < q * S) hS.le

/-! Facts about bits and powers of two (rado, booleanLattice). -/
theorem bits_xor (x m : BitVec 64) (h : x ||| m = x) : x ^^^ m = x - m ∧ m ≤ x := by
  constructor <;> bv_decide

theorem pow2_gap (a b : ℕ) (h1 : 2 ^ a ≤ 2 ^ b) (h2 : 2 ^ b < 2 * 2 ^ a) : 2 ^ b = 2 ^ a := by
  have h3 : a ≤ b := (Nat.pow_le_pow_iff_right (by norm_num)).mp h1
  have h5 : 2 ^ b < 2 ^ (a + 1) := by rw [pow_succ]; omega
  have h4 : b < a + 1 := (Nat.pow_lt_pow_iff_right (by norm_num)).mp h5
  have : a = b := by omega
  rw [this]

theorem pow2_facts (a b : ℕ) : a < 2 ^ a ∧ (a < b → 2 ^ a < 2 ^ b) :=
  ⟨Nat.lt_two_pow_self, fun h => Nat.pow_lt_pow_right (by norm_num) h⟩
