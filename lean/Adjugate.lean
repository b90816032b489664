/-
The matrix fact that contracts/det.vx assumes (`axiom fn adjugate`), for the same definitions, over every field.
Matrices are functions of two naturals; only the entries below n count (as `in_range` in the contracts).
-/
import Mathlib.LinearAlgebra.Matrix.Adjugate
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic

namespace Vx
variable {F : Type*} [Field F]

def skip (a i : ℕ) : ℕ := if a < i then a else a + 1
def minor (m : ℕ → ℕ → F) (i j : ℕ) : ℕ → ℕ → F := fun a b => m (skip a i) (skip b j)

mutual
  /-- `det`: expansion along the first column -/
  def det : ℕ → (ℕ → ℕ → F) → F
    | 0, _ => 1
    | 1, m => m 0 0
    | n + 2, m => lap (n + 2) m (n + 2)
  termination_by n _ => (n, n + 1)
  /-- `lap`: the first k terms of the expansion -/
  def lap : ℕ → (ℕ → ℕ → F) → ℕ → F
    | _, _, 0 => 0
    | 0, _, _ => 0
    | 1, _, _ => 0
    | n + 2, m, k + 1 =>
      let t := m k 0 * det (n + 1) (minor m k 0)
      if (k + 1) % 2 = 1 then lap (n + 2) m k + t else lap (n + 2) m k - t
  termination_by n _ k => (n, k)
end

def dot : ℕ → (ℕ → F) → (ℕ → F) → F
  | 0, _, _ => 0
  | n + 1, a, b => dot n a b + a n * b n

def sign (n : ℕ) : F := (-1) ^ n
def cof (n : ℕ) (m : ℕ → ℕ → F) (i j : ℕ) : F := det (n - 1) (minor m i j) * sign (i + j)

abbrev mat (n : ℕ) (m : ℕ → ℕ → F) : Matrix (Fin n) (Fin n) F := Matrix.of fun i j => m i j

theorem skip_succAbove {n : ℕ} (i : Fin (n + 1)) (a : Fin n) : skip a i = (i.succAbove a : ℕ) := by
  unfold skip Fin.succAbove
  by_cases h : (a : ℕ) < i
  · rw [if_pos h, if_pos (by simpa [Fin.lt_def] using h)]; rfl
  · rw [if_neg h, if_neg (by simpa [Fin.lt_def] using h)]; rfl

omit [Field F] in
theorem mat_minor {n : ℕ} (m : ℕ → ℕ → F) (i j : Fin (n + 1)) :
    mat n (minor m i j) = (mat (n + 1) m).submatrix i.succAbove j.succAbove := by
  ext a b
  simp [mat, minor, skip_succAbove]

theorem lap_eq {n : ℕ} (m : ℕ → ℕ → F) (k : ℕ) :
    lap (n + 2) m k = ∑ i ∈ Finset.range k, (-1) ^ i * m i 0 * det (n + 1) (minor m i 0) := by
  induction k with
  | zero => simp [lap]
  | succ k ih =>
    rw [lap, Finset.sum_range_succ, ih]
    rcases Nat.even_or_odd k with h | h
    · have : (k + 1) % 2 = 1 := by rcases h with ⟨r, rfl⟩; omega
      simp [this, h.neg_one_pow]
    · have : ¬ (k + 1) % 2 = 1 := by rcases h with ⟨r, rfl⟩; omega
      simp [this, h.neg_one_pow, sub_eq_add_neg]

theorem det_eq (n : ℕ) (m : ℕ → ℕ → F) : det n m = (mat n m).det := by
  induction n using Nat.strong_induction_on generalizing m with
  | _ n ih =>
    match n with
    | 0 => simp [det]
    | 1 => simp [det, mat]
    | n + 2 =>
      rw [det, lap_eq, Matrix.det_succ_column_zero, ← Fin.sum_univ_eq_sum_range
        (fun i => (-1) ^ i * m i 0 * det (n + 1) (minor m i 0))]
      refine Finset.sum_congr rfl fun i _ => ?_
      rw [ih (n + 1) (by omega)]
      have := mat_minor (n := n + 1) m i 0
      simp only [Fin.val_zero] at this
      rw [this]
      simp [mat, Fin.succAbove_zero]

theorem dot_eq (n : ℕ) (a b : ℕ → F) : dot n a b = ∑ i : Fin n, a i * b i := by
  rw [Fin.sum_univ_eq_sum_range (fun i => a i * b i)]
  induction n with
  | zero => simp [dot]
  | succ n ih => rw [dot, Finset.sum_range_succ, ih]

theorem cof_eq {n : ℕ} (m : ℕ → ℕ → F) (i j : Fin (n + 1)) :
    cof (n + 1) m i j = (mat (n + 1) m).adjugate j i := by
  rw [cof, Matrix.adjugate_fin_succ_eq_det_submatrix, Nat.add_sub_cancel, det_eq, mat_minor, sign]
  ring

/-- the assumed axiom of contracts/det.vx -/
theorem adjugate (n : ℕ) (m inv : ℕ → ℕ → F) (h : det n m ≠ 0)
    (hinv : ∀ i j, i < n → j < n → inv i j = cof n m j i * (1 / det n m))
    (i j : ℕ) (hi : i < n) (hj : j < n) :
    dot n (m i) (fun k => inv k j) = if i = j then 1 else 0 := by
  obtain ⟨n, rfl⟩ : ∃ k, n = k + 1 := ⟨n - 1, by omega⟩
  rw [dot_eq]
  have e : ∀ k : Fin (n + 1), m i k * inv k j
      = (mat (n + 1) m) ⟨i, hi⟩ k * (mat (n + 1) m).adjugate k ⟨j, hj⟩ * (1 / det (n + 1) m) := by
    intro k
    rw [hinv k j k.2 hj, ← cof_eq m ⟨j, hj⟩ k]
    simp [mat, mul_assoc]
  rw [Finset.sum_congr rfl fun k _ => e k, ← Finset.sum_mul, ← Matrix.mul_apply, Matrix.mul_adjugate, ← det_eq]
  by_cases hij : i = j
  · subst hij; simp [h]
  · simp [hij]

end Vx
#print axioms Vx.adjugate
