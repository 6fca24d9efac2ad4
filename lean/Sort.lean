import Mathlib.Data.List.Sort
/-! specs/c24.py: two sequences are rearrangements of each other iff their sorted versions are equal -/
theorem sorted_perm_iff (a b a' b' : List ℤ) (ha : a'.Perm a) (hb : b'.Perm b)
    (sa : a'.Pairwise (· ≤ ·)) (sb : b'.Pairwise (· ≤ ·)) : a.Perm b ↔ a' = b' := by
  constructor
  · intro h
    exact List.Perm.eq_of_pairwise (fun _ _ _ _ h1 h2 => le_antisymm h1 h2) sa sb ((ha.trans h).trans hb.symm)
  · rintro rfl
    exact ha.symm.trans hb
