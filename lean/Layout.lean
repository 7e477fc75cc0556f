import Mathlib.Data.List.Pairwise
import Mathlib.Data.List.Perm.Basic

/-! Canonical indices of the elements of a structure: an element of an entry is addressed by the name of the
entry, one number for every dimension of the entry and, if the entry holds a structure, the index of the element
of that structure.  No index is a beginning of another one, hence all of them differ. -/

namespace Pyvc

variable {α : Type*}

/-- neither of the words is a beginning of the other -/
def Apart (a b : List α) : Prop := ¬ a <+: b ∧ ¬ b <+: a

theorem Apart.symm {a b : List α} (h : Apart a b) : Apart b a := ⟨h.2, h.1⟩

/-- no word is a beginning of another one (of a different position) -/
def Free (l : List (List α)) : Prop := l.Pairwise Apart

/-- all indices of a list of indices of which none is a beginning of another are different -/
theorem free_nodup {l : List (List α)} (h : Free l) : l.Nodup :=
  List.Pairwise.imp (fun {a b} (hab : Apart a b) (e : a = b) => hab.1 (e ▸ List.prefix_refl a)) h

lemma apart_cons {x : α} {a b : List α} (h : Apart a b) : Apart (x :: a) (x :: b) := by
  constructor
  · intro p; exact h.1 ((List.cons_prefix_cons.mp p).2)
  · intro p; exact h.2 ((List.cons_prefix_cons.mp p).2)

lemma apart_append {c a b : List α} (h : Apart a b) : Apart (c ++ a) (c ++ b) := by
  constructor
  · intro p; exact h.1 ((List.prefix_append_right_inj c).mp p)
  · intro p; exact h.2 ((List.prefix_append_right_inj c).mp p)

lemma apart_of_heads {i j a b : List α} (hl : i.length = j.length) (hn : i ≠ j) : Apart (i ++ a) (j ++ b) := by
  have key : ∀ {i j a b : List α}, i.length = j.length → i ≠ j → ¬ (i ++ a) <+: (j ++ b) := by
    intro i j a b hl hn p
    apply hn
    have h1 : i <+: j ++ b := (List.prefix_append i a).trans p
    have h2 : j <+: j ++ b := List.prefix_append j b
    exact (List.prefix_of_prefix_length_le h1 h2 (Nat.le_of_eq hl)).eq_of_length hl
  exact ⟨key hl hn, key hl.symm (Ne.symm hn)⟩

/-- elements of one entry: `is` are the different combinations of numbers (one number for every dimension), `l` the
indices within the structure the entry holds (`[[]]` if it holds none) -/
theorem free_entry (nm : α) (is l : List (List α)) (d : ℕ) (hd : ∀ i ∈ is, i.length = d) (hi : is.Nodup) (hl : Free l) :
    Free (is.flatMap fun i => l.map fun w => nm :: (i ++ w)) := by
  unfold Free
  rw [List.pairwise_flatMap]
  constructor
  · intro i _
    rw [List.pairwise_map]
    exact List.Pairwise.imp (fun h => apart_cons (apart_append h)) hl
  · have hp : is.Pairwise fun i j => i ≠ j := hi
    refine List.Pairwise.imp_of_mem ?_ hp
    intro i j mi mj hij u hu v hv
    obtain ⟨w, _, rfl⟩ := List.mem_map.mp hu
    obtain ⟨w', _, rfl⟩ := List.mem_map.mp hv
    exact apart_cons (apart_of_heads ((hd i mi).trans (hd j mj).symm) hij)

/-- all combinations of numbers below the given dimensions, the last number varying fastest -/
def indices (num : ℕ → α) : List ℕ → List (List α)
  | [] => [[]]
  | d :: ds => (List.range d).flatMap fun k => (indices num ds).map fun w => num k :: w

/-- the combinations of numbers differ and have one number for every dimension -/
theorem indices_nodup (num : ℕ → α) (hn : Function.Injective num) (ds : List ℕ) :
    (indices num ds).Nodup ∧ ∀ i ∈ indices num ds, i.length = ds.length := by
  induction ds with
  | nil => simp [indices]
  | cons d ds ih =>
    constructor
    · unfold indices List.Nodup
      rw [List.pairwise_flatMap]
      constructor
      · intro k _
        rw [List.pairwise_map]
        exact List.Pairwise.imp (fun h e => h (List.cons.inj e).2) ih.1
      · refine List.Pairwise.imp ?_ (List.nodup_range (n := d))
        intro a b hab u hu v hv e
        obtain ⟨w, _, rfl⟩ := List.mem_map.mp hu
        obtain ⟨w', _, rfl⟩ := List.mem_map.mp hv
        exact hab (hn (List.cons.inj e).1)
    · intro i hi
      obtain ⟨k, _, hk⟩ := List.mem_flatMap.mp hi
      obtain ⟨w, hw, rfl⟩ := List.mem_map.mp hk
      simp [ih.2 w hw]

/-- elements of a structure: the entries have different names; the order of the elements does not matter -/
theorem free_struct (es : List (α × List (List α))) (hn : (es.map Prod.fst).Nodup)
    (hh : ∀ e ∈ es, ∀ w ∈ e.2, ∃ t, w = e.1 :: t) (hf : ∀ e ∈ es, Free e.2)
    (l : List (List α)) (hp : l.Perm (es.flatMap Prod.snd)) : Free l := by
  have h : Free (es.flatMap Prod.snd) := by
    unfold Free
    rw [List.pairwise_flatMap]
    refine ⟨fun e he => hf e he, ?_⟩
    have hq : es.Pairwise fun e f => e.1 ≠ f.1 := List.pairwise_map.mp hn
    refine List.Pairwise.imp_of_mem ?_ hq
    intro e f me mf hef u hu v hv
    obtain ⟨t, rfl⟩ := hh e me u hu
    obtain ⟨t', rfl⟩ := hh f mf v hv
    exact ⟨fun p => hef (List.cons_prefix_cons.mp p).1, fun p => hef (List.cons_prefix_cons.mp p).1.symm⟩
  exact (hp.pairwise_iff (fun {a b} (h : Apart a b) => h.symm)).mpr h

/-- a single element without dimensions -/
theorem free_single : Free [([] : List α)] := List.pairwise_singleton _ _

end Pyvc
