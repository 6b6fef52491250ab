import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Series
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic
import Mathlib.Tactic

/-! Facts about the modified spherical Bessel functions that the contracts use.
    `k` is the function the contracts of C03 determine (start values and recurrence), `i` the power series. -/

open Real

noncomputable def k : ℕ → ℝ → ℝ
  | 0, x => π / 2 * exp (-x) / x
  | 1, x => π / 2 * exp (-x) / x * (1 + 1 / x)
  | (l + 2), x => k l x + (2 * l + 3) / x * k (l + 1) x

theorem k_pos (x : ℝ) (hx : 0 < x) : ∀ l, 0 < k l x
  | 0 => by unfold k; positivity
  | 1 => by unfold k; positivity
  | (l + 2) => by
      have h1 := k_pos x hx l
      have h2 := k_pos x hx (l + 1)
      unfold k; positivity

/-- x k_{l+1} > (2l+1) k_l for l >= 1 -/
theorem k_ratio (x : ℝ) (hx : 0 < x) (l : ℕ) : (2 * l + 3) * k (l + 1) x < x * k (l + 2) x := by
  have h1 := k_pos x hx l
  have e : x * k (l + 2) x = x * k l x + (2 * l + 3) * k (l + 1) x := by
    rw [k]; field_simp
  rw [e]; nlinarith

theorem odiv_lt {x y : ℝ} (hx : 0 < x) (h : x < y) : 1 / y < 1 / x := one_div_lt_one_div_of_lt hx h

theorem exp_neg_lt {x y : ℝ} (h : x < y) : exp (-y) < exp (-x) := exp_lt_exp.mpr (by linarith)

theorem k_anti {x y : ℝ} (hx : 0 < x) (h : x < y) : ∀ l, k l y < k l x
  | 0 => by
      have hy : 0 < y := hx.trans h
      have a := exp_neg_lt h
      have b := odiv_lt hx h
      have e : ∀ z : ℝ, k 0 z = π / 2 * (exp (-z) * (1 / z)) := by intro z; unfold k; ring
      rw [e, e]
      have : exp (-y) * (1 / y) < exp (-x) * (1 / x) := by
        have := exp_pos (-x); have := one_div_pos.mpr hy
        exact mul_lt_mul a b.le (by positivity) (by positivity)
      have hp := pi_pos
      nlinarith
  | 1 => by
      have hy : 0 < y := hx.trans h
      have a := k_anti hx h 0
      have b := odiv_lt hx h
      have e : ∀ z : ℝ, k 1 z = k 0 z * (1 + 1 / z) := by intro z; rw [k, k]
      rw [e, e]
      have := k_pos x hx 0
      have := one_div_pos.mpr hy
      exact mul_lt_mul a (by linarith) (by positivity) (by positivity)
  | (l + 2) => by
      have hy : 0 < y := hx.trans h
      have a := k_anti hx h l
      have b := k_anti hx h (l + 1)
      have c := odiv_lt hx h
      have p := k_pos x hx (l + 1)
      have q := one_div_pos.mpr hy
      have q' := k_pos y hy (l + 1)
      have e : ∀ z : ℝ, k (l + 2) z = k l z + (2 * l + 3) * ((1 / z) * k (l + 1) z) := by
        intro z; rw [k]; ring
      rw [e, e]
      have : (1 / y) * k (l + 1) y < (1 / x) * k (l + 1) x :=
        mul_lt_mul c b.le q' (one_div_pos.mpr hx).le
      have hl : (0 : ℝ) < 2 * l + 3 := by positivity
      nlinarith [mul_lt_mul_of_pos_left this hl]

/-- x k_l decreases -/
theorem xk_anti {x y : ℝ} (hx : 0 < x) (h : x < y) : ∀ l, y * k l y < x * k l x
  | 0 => by
      have hy : 0 < y := hx.trans h
      have e : ∀ z : ℝ, 0 < z → z * k 0 z = π / 2 * exp (-z) := by
        intro z hz; unfold k; field_simp
      rw [e y hy, e x hx]
      have := exp_neg_lt h; have := pi_pos; nlinarith
  | 1 => by
      have hy : 0 < y := hx.trans h
      have e : ∀ z : ℝ, 0 < z → z * k 1 z = π / 2 * exp (-z) + k 0 z := by
        intro z hz; rw [k, k]; field_simp
      rw [e y hy, e x hx]
      have := exp_neg_lt h; have := pi_pos; have := k_anti hx h 0; nlinarith
  | (l + 2) => by
      have hy : 0 < y := hx.trans h
      have e : ∀ z : ℝ, 0 < z → z * k (l + 2) z = z * k l z + (2 * l + 3) * k (l + 1) z := by
        intro z hz; rw [k]; field_simp
      rw [e y hy, e x hx]
      have a := xk_anti hx h l
      have b := k_anti hx h (l + 1)
      have hl : (0 : ℝ) < 2 * l + 3 := by positivity
      nlinarith [mul_lt_mul_of_pos_left b hl]

/-- -(x k_l)' = x k_{l-1} + l k_l decreases (l >= 1) -/
theorem dxk_anti {x y : ℝ} (hx : 0 < x) (h : x < y) (l : ℕ) :
    y * k l y + (l + 1) * k (l + 1) y < x * k l x + (l + 1) * k (l + 1) x := by
  have a := xk_anti hx h l
  have b := k_anti hx h (l + 1)
  have hl : (0 : ℝ) < l + 1 := by positivity
  nlinarith [mul_lt_mul_of_pos_left b hl]


/-- (2n+1)!! -/
def D : ℕ → ℕ
  | 0 => 1
  | (n + 1) => (2 * n + 3) * D n

theorem D_pos : ∀ n, 0 < D n
  | 0 => by simp [D]
  | (n + 1) => by have := D_pos n; simp [D]; omega

/-- (2n+1)! = 2^n n! (2n+1)!! -/
theorem D_fact : ∀ n, (2 * n + 1).factorial = 2 ^ n * n.factorial * D n
  | 0 => by simp [D]
  | (n + 1) => by
      have h := D_fact n
      have e : 2 * (n + 1) + 1 = (2 * n + 1) + 1 + 1 := by ring
      rw [e, Nat.factorial_succ, Nat.factorial_succ, h, Nat.factorial_succ n, D, pow_succ]
      ring

/-- coefficient of x^(l+2j) in i_l -/
noncomputable def a (l j : ℕ) : ℝ := 1 / (2 ^ j * (j.factorial : ℝ) * D (l + j))

theorem a_pos (l j : ℕ) : 0 < a l j := by
  have := D_pos (l + j)
  unfold a; positivity

theorem a_le (l j : ℕ) : a l j ≤ 1 / (j.factorial : ℝ) := by
  have h1 : (1 : ℝ) ≤ D (l + j) := by exact_mod_cast D_pos (l + j)
  have h2 : (1 : ℝ) ≤ 2 ^ j := one_le_pow₀ (by norm_num)
  have hf : (0 : ℝ) < j.factorial := by positivity
  unfold a
  apply one_div_le_one_div_of_le hf
  nlinarith [mul_le_mul h2 h1 (by norm_num) (by positivity), mul_pos hf hf]

noncomputable def term (l : ℕ) (x : ℝ) (j : ℕ) : ℝ := a l j * (x ^ 2) ^ j

theorem summable_term (l : ℕ) (x : ℝ) : Summable (term l x) := by
  refine Summable.of_nonneg_of_le (fun j => ?_) (fun j => ?_) (Real.summable_pow_div_factorial (x ^ 2))
  · have := a_pos l j; unfold term; positivity
  · unfold term
    have h := a_le l j
    have hx : (0 : ℝ) ≤ (x ^ 2) ^ j := by positivity
    calc a l j * (x ^ 2) ^ j ≤ 1 / (j.factorial : ℝ) * (x ^ 2) ^ j := mul_le_mul_of_nonneg_right h hx
      _ = (x ^ 2) ^ j / j.factorial := by ring

noncomputable def S (l : ℕ) (x : ℝ) : ℝ := ∑' j, term l x j

/-- the regular function: x^l times the power series -/
noncomputable def i (l : ℕ) (x : ℝ) : ℝ := x ^ l * S l x

theorem S_pos (l : ℕ) (x : ℝ) : 0 < S l x := by
  unfold S
  refine (summable_term l x).tsum_pos (fun j => ?_) 0 ?_
  · have := a_pos l j; unfold term; positivity
  · have := a_pos l 0; unfold term; simpa using this

theorem i_pos (x : ℝ) (hx : 0 < x) (l : ℕ) : 0 < i l x := by
  have := S_pos l x; unfold i; positivity

theorem S_mono {x y : ℝ} (hx : 0 < x) (h : x < y) (l : ℕ) : S l x < S l y := by
  unfold S
  refine Summable.tsum_lt_tsum (i := 1) (fun j => ?_) ?_ (summable_term l x) (summable_term l y)
  · unfold term
    have := (a_pos l j).le
    gcongr
  · unfold term
    have := a_pos l 1
    have hy : 0 < y := hx.trans h
    have : x ^ 2 < y ^ 2 := by nlinarith
    simp only [pow_one]
    nlinarith

/-- i_l increases -/
theorem i_mono {x y : ℝ} (hx : 0 < x) (h : x < y) (l : ℕ) : i l x < i l y := by
  have h1 := S_mono hx h l
  have h2 : x ^ l ≤ y ^ l := by gcongr
  have hy : 0 < y := hx.trans h
  unfold i
  calc x ^ l * S l x < x ^ l * S l y := by have : 0 < x ^ l := by positivity
                                           nlinarith
    _ ≤ y ^ l * S l y := by have := (S_pos l y).le
                            gcongr

/-- (x i_l)' = (l+1) i_l + x i_{l+1} increases -/
theorem dxi_mono {x y : ℝ} (hx : 0 < x) (h : x < y) (l : ℕ) :
    (l + 1) * i l x + x * i (l + 1) x < (l + 1) * i l y + y * i (l + 1) y := by
  have h1 := i_mono hx h l
  have h2 := i_mono hx h (l + 1)
  have h3 := i_pos x hx (l + 1)
  have hl : (0 : ℝ) < l + 1 := by positivity
  have h4 := mul_lt_mul_of_pos_left h1 hl
  have h5 : x * i (l + 1) x < y * i (l + 1) y := by nlinarith
  linarith

theorem a_rec (l j : ℕ) : a l (j + 1) = (2 * l + 3) * a (l + 1) (j + 1) + a (l + 2) j := by
  have d1 : (D (l + (j + 1)) : ℝ) ≠ 0 := by exact_mod_cast (D_pos _).ne'
  have e1 : l + 1 + (j + 1) = (l + (j + 1)) + 1 := by ring
  have e2 : l + 2 + j = (l + (j + 1)) + 1 := by ring
  have hf : ((j + 1).factorial : ℝ) = (j + 1) * j.factorial := by push_cast [Nat.factorial_succ]; ring
  have hf0 : (j.factorial : ℝ) ≠ 0 := by positivity
  have hD : (D ((l + (j + 1)) + 1) : ℝ) = (2 * (l + (j + 1)) + 3) * D (l + (j + 1)) := by
    simp [D]
  have hn : (2 * ((l : ℝ) + (j + 1)) + 3) ≠ 0 := by positivity
  have hj : ((j : ℝ) + 1) ≠ 0 := by positivity
  unfold a
  rw [e1, e2, hD, hf, pow_succ]
  field_simp
  ring

theorem a_rec0 (l : ℕ) : a l 0 = (2 * l + 3) * a (l + 1) 0 := by
  have d1 : (D l : ℝ) ≠ 0 := by exact_mod_cast (D_pos _).ne'
  have hn : (2 * (l : ℝ) + 3) ≠ 0 := by positivity
  unfold a
  simp [D]
  field_simp

theorem S_rec (l : ℕ) (x : ℝ) : S l x = (2 * l + 3) * S (l + 1) x + x ^ 2 * S (l + 2) x := by
  unfold S
  rw [(summable_term l x).tsum_eq_zero_add, (summable_term (l + 1) x).tsum_eq_zero_add]
  have hs1 : Summable (fun j => term (l + 1) x (j + 1)) := (summable_nat_add_iff 1).mpr (summable_term (l + 1) x)
  have h : ∀ j, term l x (j + 1) = (2 * l + 3) * term (l + 1) x (j + 1) + x ^ 2 * term (l + 2) x j := by
    intro j
    unfold term
    rw [a_rec l j, pow_succ]
    ring
  rw [tsum_congr h, (hs1.mul_left _).tsum_add ((summable_term (l + 2) x).mul_left _), tsum_mul_left, tsum_mul_left]
  have h0 : term l x 0 = (2 * l + 3) * term (l + 1) x 0 := by
    unfold term; rw [a_rec0 l]; ring
  rw [h0]; ring

/-- recurrence: i_l = i_{l+2} + (2l+3)/x i_{l+1} -/
theorem i_rec (x : ℝ) (hx : 0 < x) (l : ℕ) : i l x = i (l + 2) x + (2 * l + 3) / x * i (l + 1) x := by
  unfold i
  rw [S_rec l x, pow_succ, pow_succ]
  field_simp
  ring

/-- x i_{l} > (2l+3) i_{l+1} -/
theorem i_ratio (x : ℝ) (hx : 0 < x) (l : ℕ) : (2 * l + 3) * i (l + 1) x < x * i l x := by
  have h := i_rec x hx l
  have p := i_pos x hx (l + 2)
  have e : x * i l x = x * i (l + 2) x + (2 * l + 3) * i (l + 1) x := by rw [h]; field_simp
  rw [e]; nlinarith

/-- i_0 = sinh x / x -/
theorem i_zero (x : ℝ) (hx : 0 < x) : i 0 x = sinh x / x := by
  have h := (Real.hasSum_sinh x).tsum_eq
  have e : ∀ j, x ^ (2 * j + 1) / ((2 * j + 1).factorial : ℝ) = x * term 0 x j := by
    intro j
    unfold term a
    rw [D_fact j]
    push_cast
    rw [pow_succ, pow_mul, Nat.zero_add]
    ring
  rw [← h, tsum_congr e, tsum_mul_left]
  unfold i S
  field_simp

/-- i_1 = (x cosh x - sinh x)/x^2 -/
theorem i_one (x : ℝ) (hx : 0 < x) : i 1 x = (x * cosh x - sinh x) / x ^ 2 := by
  have h := Real.hasSum_cosh x
  have hc : cosh x = ∑' j, x ^ (2 * j) / ((2 * j).factorial : ℝ) := h.tsum_eq.symm
  have e0 : ∀ j, x ^ (2 * (j + 1)) / ((2 * (j + 1)).factorial : ℝ) = term 0 x (j + 1) + x ^ 2 * term 1 x j := by
    intro j
    have hD : (D (j + 1) : ℝ) = (2 * j + 3) * D j := by simp [D]
    have hf := D_fact (j + 1)
    have e : 2 * (j + 1) + 1 = (2 * (j + 1)) + 1 := rfl
    rw [e, Nat.factorial_succ] at hf
    have hq : ((2 * (j + 1)).factorial : ℝ) = 2 ^ (j + 1) * (j + 1).factorial * D (j + 1) / (2 * (j + 1) + 1) := by
      have : ((2 * (j + 1) + 1 : ℕ) : ℝ) * ((2 * (j + 1)).factorial : ℝ) = 2 ^ (j + 1) * (j + 1).factorial * D (j + 1) := by
        exact_mod_cast hf
      push_cast at this
      have hn : (2 * ((j : ℝ) + 1) + 1) ≠ 0 := by positivity
      field_simp
      linarith
    have hfj : ((j + 1).factorial : ℝ) = (j + 1) * j.factorial := by push_cast [Nat.factorial_succ]; ring
    have hD0 : (D (j + 1) : ℝ) ≠ 0 := by exact_mod_cast (D_pos _).ne'
    have hf0 : (j.factorial : ℝ) ≠ 0 := by positivity
    have hj : ((j : ℝ) + 1) ≠ 0 := by positivity
    have hn : (2 * ((j : ℝ) + 1) + 1) ≠ 0 := by positivity
    unfold term a
    rw [hq, hfj, Nat.zero_add, Nat.add_comm 1 j, pow_mul, pow_succ (x ^ 2), pow_succ (2 : ℝ)]
    field_simp
    ring
  have hs1 : Summable (fun j => term 0 x (j + 1)) := (summable_nat_add_iff 1).mpr (summable_term 0 x)
  have hcosh : cosh x = S 0 x + x ^ 2 * S 1 x := by
    rw [hc, h.summable.tsum_eq_zero_add, tsum_congr e0, hs1.tsum_add ((summable_term 1 x).mul_left _), tsum_mul_left]
    unfold S
    rw [(summable_term 0 x).tsum_eq_zero_add]
    have : term 0 x 0 = 1 := by unfold term a; simp [D]
    rw [this]
    simp
    ring
  have h0 := i_zero x hx
  unfold i at *
  simp at h0 ⊢
  have hs : sinh x = x * S 0 x := by rw [h0]; field_simp
  rw [hs, hcosh]
  field_simp
  ring

/-- the Wronskian -/
theorem wronskian (x : ℝ) (hx : 0 < x) : ∀ l, i l x * k (l + 1) x + i (l + 1) x * k l x = π / (2 * x ^ 2)
  | 0 => by
      rw [i_zero x hx, i_one x hx, k, k, sinh_eq, cosh_eq]
      have he : exp (-x) * exp x = 1 := by rw [← exp_add]; simp
      field_simp
      ring_nf
      nlinarith [he]
  | (l + 1) => by
      have h := wronskian x hx l
      have hi := i_rec x hx l
      rw [← h, hi, k]
      ring

open Filter Topology

/-- leading term at 0: i_l / x^l -> 1/(2l+1)!! -/
theorem i_lead (l : ℕ) : Tendsto (fun x : ℝ => i l x / x ^ l) (𝓝[>] 0) (𝓝 (1 / D l)) := by
  have ha : a l 0 = 1 / D l := by unfold a; simp
  have lo : ∀ x : ℝ, a l 0 ≤ S l x := by
    intro x
    have h0 : term l x 0 = a l 0 := by unfold term; simp
    rw [← h0]
    exact (summable_term l x).le_tsum 0 (fun j _ => by have := a_pos l j; unfold term; positivity)
  have hi : ∀ x : ℝ, S l x ≤ a l 0 + (exp (x ^ 2) - 1) := by
    intro x
    have he : exp (x ^ 2) = ∑' j : ℕ, (x ^ 2) ^ j / (j.factorial : ℝ) := by
      rw [Real.exp_eq_exp_ℝ, NormedSpace.exp_eq_tsum_div]
    have hs := Real.summable_pow_div_factorial (x ^ 2)
    rw [he, hs.tsum_eq_zero_add]
    unfold S
    rw [(summable_term l x).tsum_eq_zero_add]
    have h0 : term l x 0 = a l 0 := by unfold term; simp
    have hle : ∑' j, term l x (j + 1) ≤ ∑' j : ℕ, (x ^ 2) ^ (j + 1) / ((j + 1).factorial : ℝ) := by
      refine Summable.tsum_le_tsum (fun j => ?_) ((summable_nat_add_iff 1).mpr (summable_term l x)) ((summable_nat_add_iff 1).mpr hs)
      unfold term
      have h := a_le l (j + 1)
      have hx : (0 : ℝ) ≤ (x ^ 2) ^ (j + 1) := by positivity
      calc a l (j + 1) * (x ^ 2) ^ (j + 1) ≤ 1 / ((j + 1).factorial : ℝ) * (x ^ 2) ^ (j + 1) := mul_le_mul_of_nonneg_right h hx
        _ = (x ^ 2) ^ (j + 1) / (j + 1).factorial := by ring
    rw [h0]
    simp
    simpa using hle
  have hS : Tendsto (S l) (𝓝[>] 0) (𝓝 (a l 0)) := by
    refine tendsto_of_tendsto_of_tendsto_of_le_of_le tendsto_const_nhds ?_ lo hi
    have c : Continuous (fun x : ℝ => a l 0 + (exp (x ^ 2) - 1)) := by fun_prop
    have := (c.tendsto 0).mono_left (nhdsWithin_le_nhds (s := Set.Ioi 0))
    simpa using this
  rw [← ha]
  refine hS.congr' ?_
  filter_upwards [self_mem_nhdsWithin] with x hx
  have hx' : (0 : ℝ) < x := hx
  unfold i
  field_simp

/-- leading term at 0: x^(l+1) k_l -> (pi/2) (2l-1)!! -/
theorem k_lead : ∀ l : ℕ, Tendsto (fun x : ℝ => x ^ (l + 2) * k (l + 1) x) (𝓝[>] 0) (𝓝 (π / 2 * D l))
  | 0 => by
      have c : Continuous (fun x : ℝ => π / 2 * exp (-x) * (x + 1)) := by fun_prop
      have h := (c.tendsto 0).mono_left (nhdsWithin_le_nhds (s := Set.Ioi 0))
      simp only [neg_zero, exp_zero, mul_one, zero_add] at h
      have hD : (π / 2 * (D 0 : ℝ)) = π / 2 := by simp [D]
      rw [hD]
      refine h.congr' ?_
      filter_upwards [self_mem_nhdsWithin] with x hx
      have hx' : (0 : ℝ) < x := hx
      rw [k]
      field_simp
  | 1 => by
      have h := k_lead 0
      have c : Continuous (fun x : ℝ => π / 2 * exp (-x) * x ^ 2) := by fun_prop
      have h2 := (c.tendsto 0).mono_left (nhdsWithin_le_nhds (s := Set.Ioi 0))
      have h3 := h2.add (h.const_mul 3)
      have e : π / 2 * exp (-0) * 0 ^ 2 + 3 * (π / 2 * (D 0 : ℝ)) = π / 2 * (D 1 : ℝ) := by
        simp [D]; ring
      rw [e] at h3
      refine h3.congr' ?_
      filter_upwards [self_mem_nhdsWithin] with x hx
      have hx' : (0 : ℝ) < x := hx
      have e2 : k (1 + 1) x = k 0 x + 3 / x * k 1 x := by
        conv_lhs => rw [show (1 : ℕ) + 1 = 0 + 2 from rfl, k]
        norm_num
      have e0 : k 0 x = π / 2 * exp (-x) / x := by rw [k]
      have e1 : k (0 + 1) x = k 1 x := rfl
      rw [e2, e0, e1]
      field_simp
      ring
  | (l + 2) => by
      have h1 := k_lead l
      have h2 := k_lead (l + 1)
      have c : Continuous (fun x : ℝ => x ^ 2) := by fun_prop
      have h0 := (c.tendsto 0).mono_left (nhdsWithin_le_nhds (s := Set.Ioi 0))
      have h3 := (h0.mul h1).add (h2.const_mul (2 * ((l : ℝ) + 1) + 3))
      have e : (0 : ℝ) ^ 2 * (π / 2 * (D l : ℝ)) + (2 * ((l : ℝ) + 1) + 3) * (π / 2 * (D (l + 1) : ℝ)) = π / 2 * (D (l + 2) : ℝ) := by
        have : (D (l + 2) : ℝ) = (2 * ((l : ℝ) + 1) + 3) * D (l + 1) := by rw [D]; push_cast; ring
        rw [this]; ring
      rw [e] at h3
      refine h3.congr' ?_
      filter_upwards [self_mem_nhdsWithin] with x hx
      have hx' : (0 : ℝ) < x := hx
      have hk : k (l + 2 + 1) x = k (l + 1) x + (2 * ((l : ℝ) + 1) + 3) / x * k (l + 1 + 1) x := by
        rw [show l + 2 + 1 = (l + 1) + 2 from rfl, k]; push_cast; ring
      rw [hk]
      field_simp
      ring

#print axioms i_lead
#print axioms k_lead
#print axioms wronskian
#print axioms dxi_mono
#print axioms dxk_anti
#print axioms i_ratio
