import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.LinearAlgebra.Matrix.Trace
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.FieldSimp

open Matrix

/-- the matrix that `balance` returns: entry (i,j) times d j / d i -/
noncomputable def bal {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) : Matrix (Fin n) (Fin n) ℝ :=
  fun i j => A i j * d j / d i

theorem bal_eq {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) :
    bal A d = diagonal (fun i => (d i)⁻¹) * A * diagonal d := by
  ext i j
  simp [bal, Matrix.mul_diagonal, Matrix.diagonal_mul]
  ring

theorem det_bal {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) (h : ∀ i, 0 < d i) :
    (bal A d).det = A.det := by
  have hp : (∏ i, d i) ≠ 0 := Finset.prod_ne_zero_iff.mpr (fun i _ => (h i).ne')
  rw [bal_eq, det_mul, det_mul, det_diagonal, det_diagonal, Finset.prod_inv_distrib]
  field_simp

theorem trace_bal {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) (h : ∀ i, 0 < d i) :
    (bal A d).trace = A.trace := by
  unfold Matrix.trace
  refine Finset.sum_congr rfl (fun i _ => ?_)
  have := (h i).ne'
  simp [bal, Matrix.diag]
  field_simp

/-- block-diagonal matrices -/
theorem det_blockdiag {n : ℕ} (A B : Matrix (Fin n) (Fin n) ℝ) :
    (fromBlocks A 0 0 B).det = A.det * B.det := by
  rw [det_fromBlocks_zero₂₁]

/-- the similarity factor c^(l1-l2) of the round-trip blocks (C11): traces and determinants do not change -/
theorem similarity_det {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (c : ℝ) (h : 0 < c) :
    (Matrix.of fun i j => A i j * c ^ (i : ℕ) / c ^ (j : ℕ) : Matrix (Fin n) (Fin n) ℝ).det = A.det := by
  rw [← det_bal A (fun i => (c ^ (i : ℕ))⁻¹) (fun i => inv_pos.mpr (pow_pos h _))]
  congr 1
  ext i j
  have h1 : c ^ (i : ℕ) ≠ 0 := (pow_pos h _).ne'
  have h2 : c ^ (j : ℕ) ≠ 0 := (pow_pos h _).ne'
  simp only [bal, Matrix.of_apply]
  field_simp

/-- balancing (1 - M) instead of M: the determinant of 1 - M is unchanged -/
theorem det_one_sub_bal {n : ℕ} (A : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) (h : ∀ i, 0 < d i) :
    (bal (1 - A) d).det = (1 - A).det := det_bal _ d h

#print axioms det_bal
#print axioms trace_bal
#print axioms det_blockdiag
#print axioms similarity_det
