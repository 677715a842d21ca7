/-
Facts about replacing text that the prover uses as simplification rules (pyver/builtins_.py, str_replace).
Texts are sequences of characters; `replace1` and `replace2` are the left to right, non overlapping replacement
of a pattern of one, respectively two, characters, which is what `str.replace` documents.
-/
variable {α : Type} [DecidableEq α]

/-- replacement of the one-character pattern `c` by `r` -/
def replace1 (c : α) (r : List α) : List α → List α
  | [] => []
  | x :: xs => if x = c then r ++ replace1 c r xs else x :: replace1 c r xs

/-- replacement of the two-character pattern `p q` by `r` -/
def replace2 (p q : α) (r : List α) : List α → List α
  | [] => []
  | [x] => [x]
  | x :: y :: ys => if x = p ∧ y = q then r ++ replace2 p q r ys else x :: replace2 p q r (y :: ys)

/-- a pattern with a character that is not in the text is nowhere in it -/
theorem replace1_absent (c : α) (r : List α) : ∀ s : List α, c ∉ s → replace1 c r s = s
  | [], _ => rfl
  | x :: xs, h => by
    have hx : ¬ x = c := fun e => h (by simp [e])
    have hs : c ∉ xs := fun m => h (List.mem_cons_of_mem _ m)
    simp [replace1, hx, replace1_absent c r xs hs]

theorem replace2_absent (p q : α) (r : List α) : ∀ s : List α, (p ∉ s ∨ q ∉ s) → replace2 p q r s = s
  | [], _ => rfl
  | [x], _ => rfl
  | x :: y :: ys, h => by
    have hx : ¬ (x = p ∧ y = q) := by
      rintro ⟨e, f⟩
      cases h with
      | inl h => exact h (by simp [e])
      | inr h => exact h (by simp [f])
    have hs : p ∉ (y :: ys) ∨ q ∉ (y :: ys) := by
      cases h with
      | inl h => exact Or.inl (fun m => h (List.mem_cons_of_mem _ m))
      | inr h => exact Or.inr (fun m => h (List.mem_cons_of_mem _ m))
    rw [replace2, if_neg hx, replace2_absent p q r (y :: ys) hs]

/-- escaping `q` by a character that was not there, and then unescaping, gives the text back -/
theorem unescape_escape (p q : α) (hpq : p ≠ q) :
    ∀ s : List α, p ∉ s → replace2 p q [q] (replace1 q [p, q] s) = s
  | [], _ => rfl
  | x :: xs, h => by
    have hp : ¬ x = p := fun e => h (by simp [e])
    have hs : p ∉ xs := fun m => h (List.mem_cons_of_mem _ m)
    have ih := unescape_escape p q hpq xs hs
    by_cases e : x = q
    · simp [replace1, e, replace2, ih]
    · simp only [replace1, if_neg e]
      cases hh : replace1 q [p, q] xs with
      | nil => rw [hh] at ih; simp [replace2] at ih ⊢; exact ih
      | cons y ys =>
        rw [hh] at ih
        rw [replace2, if_neg (fun c => hp c.1), ih]
