import Mathlib
/-! The mathematical facts the obligations of /verif/vcg use as axioms or lemmas, and what turns the recursions used in the
contracts (coefficients, LU, Faddeev-LeVerrier, Ackermann) into the statements of the properties. -/
/-! Integer arithmetic: `prod` is the product, `dv`/`md` quotient and remainder, `lin r c C = r*C + c`. -/
namespace Arith
variable (r c C R i s d a b : ℤ)
abbrev lin (r c C : ℤ) := r * C + c

theorem lin_comm : lin r c C = C * r + c := by unfold lin; ring
theorem prod_commutes : a * b = b * a := mul_comm a b
theorem lin_dv_md (_hr : 0 ≤ r) (hc : 0 ≤ c) (h : c < C) :
    lin r c C / C = r ∧ lin r c C % C = c ∧ 0 ≤ lin r c C := by
  have hC : 0 < C := lt_of_le_of_lt hc h
  refine ⟨?_, ?_, ?_⟩
  · rw [lin, add_comm, Int.add_mul_ediv_right _ _ hC.ne', Int.ediv_eq_zero_of_lt hc h, zero_add]
  · rw [lin, add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt hc h]
  · unfold lin; positivity
theorem lin_lt_prod (_hr : 0 ≤ r) (hc : 0 ≤ c) (h : c < C) (hR : r < R) : lin r c C < R * C := by
  unfold lin; nlinarith
theorem dv_md_lin (hi : 0 ≤ i) (hC : 0 < C) :
    0 ≤ i / C ∧ 0 ≤ i % C ∧ i % C < C ∧ lin (i / C) (i % C) C = i ∧ i / C ≤ i :=
  ⟨Int.ediv_nonneg hi hC.le, Int.emod_nonneg _ hC.ne', Int.emod_lt_of_pos _ hC,
   by unfold lin; rw [mul_comm]; exact Int.mul_ediv_add_emod i C, Int.ediv_le_self _ hi⟩
theorem dv_lt (hi : 0 ≤ i) (hC : 0 ≤ C) (hR : 0 ≤ R) (h : i < R * C) : i / C < R ∧ 0 < R ∧ 0 < C := by
  have h1 : 0 < R * C := lt_of_le_of_lt hi h
  have hC' : 0 < C := by
    rcases hC.lt_or_eq with h' | h'
    · exact h'
    · rw [← h', mul_zero] at h1; exact absurd h1 (lt_irrefl _)
  have hR' : 0 < R := by
    rcases hR.lt_or_eq with h' | h'
    · exact h'
    · rw [← h', zero_mul] at h1; exact absurd h1 (lt_irrefl _)
  exact ⟨Int.ediv_lt_of_lt_mul hC' h, hR', hC'⟩
theorem prod_facts (ha : 0 ≤ a) (hb : 0 ≤ b) :
    0 ≤ a * b ∧ (a = 0 → a * b = 0) ∧ (b = 0 → a * b = 0) ∧ (0 < a ∧ 0 < b → a ≤ a * b ∧ b ≤ a * b) ∧
    (a = 1 → a * b = b) ∧ (b = 1 → a * b = a) := by
  refine ⟨by positivity, by rintro rfl; simp, by rintro rfl; simp, ?_, by rintro rfl; simp, by rintro rfl; simp⟩
  rintro ⟨h1, h2⟩; constructor <;> nlinarith
/-- the size bounds of core.py: MAXDIM = 2^29 rows or columns, MAXLEN = 2^58 elements -/
theorem prod_bound (ha : 0 ≤ a) (_hb : 0 ≤ b) (h1 : a ≤ 2 ^ 29) (h2 : b ≤ 2 ^ 29) : a * b ≤ 2 ^ 58 := by
  nlinarith
theorem lin_order (_hr : 0 ≤ r) (hc : 0 ≤ c) (h : c < C) (_hs : 0 ≤ s) (hd : 0 ≤ d) (h' : d < C) :
    lin r c C < lin s d C ↔ r < s ∨ (r = s ∧ c < d) := by
  unfold lin
  constructor
  · intro hl
    rcases lt_trichotomy r s with h1 | h1 | h1
    · exact Or.inl h1
    · subst h1; exact Or.inr ⟨rfl, by linarith⟩
    · exfalso; nlinarith
  · rintro (h1 | ⟨rfl, h1⟩)
    · nlinarith
    · linarith
theorem dv_one (h : C = 1) : i / C = i ∧ i % C = 0 := by subst h; simp
theorem dv_small (hi : 0 ≤ i) (h : i < C) : i / C = 0 ∧ i % C = i :=
  ⟨Int.ediv_eq_zero_of_lt hi h, Int.emod_eq_of_lt hi h⟩
theorem prod_succ (h : b = a + 1) : b * C = a * C + C := by subst h; ring
theorem prod_mono (_h0 : 0 ≤ a) (h : a < b) (hC : 0 ≤ C) : a * C + C ≤ b * C := by nlinarith
theorem dv_shift (_hr : 0 ≤ r) (h1 : r * C ≤ i) (h2 : i < r * C + C) : i / C = r ∧ i % C = i - r * C := by
  have hC : 0 < C := by linarith
  have : i = lin r (i - r * C) C := by unfold lin; ring
  have h := lin_dv_md r (i - r * C) C _hr (by linarith) (by linarith)
  rw [← this] at h
  exact ⟨h.1, h.2.1⟩
theorem real_product_commutes (x y : ℝ) : x * y = y * x := mul_comm x y
theorem mul_positive (x y : ℝ) (hx : 0 < x) (hy : 0 < y) : 0 < x * y := mul_pos hx hy
theorem div_positive (x y : ℝ) (hx : 0 < x) (hy : 0 < y) : 0 < x / y := div_pos hx hy
theorem div_is_mul (x y : ℝ) : x / y = x * (1 / y) := by rw [one_div, div_eq_mul_inv]
/-- the number of halvings in the contract of log2_ceil exists -/
theorem exists_halving (x : ℝ) : ∃ m : ℕ, x * (1 / 2) ^ m ≤ 1 ∧ ∀ j < m, 1 < x * (1 / 2) ^ j := by
  classical
  have h : ∃ m : ℕ, x * (1 / 2) ^ m ≤ 1 := by
    rcases le_or_gt x 0 with hx | hx
    · exact ⟨0, by simpa using le_trans hx zero_le_one⟩
    · obtain ⟨m, hm⟩ := exists_pow_lt_of_lt_one (one_div_pos.mpr hx) (by norm_num : (1 / 2 : ℝ) < 1)
      refine ⟨m, ?_⟩
      have := mul_lt_mul_of_pos_left hm hx
      rw [mul_one_div_cancel hx.ne'] at this
      exact this.le
  exact ⟨Nat.find h, Nat.find_spec h, fun j hj => lt_of_not_ge (Nat.find_min h hj)⟩
end Arith

/-! Folds: two folds agree when their bases agree and their steps agree below the bound. -/
theorem fold_ext {α : Type*} (F G : ℕ → α) (N : ℕ) (f g : α → ℕ → α) (h0 : F 0 = G 0)
    (hF : ∀ n, F (n + 1) = f (F n) n) (hG : ∀ n, G (n + 1) = g (G n) n)
    (h : ∀ n, n < N → F n = G n → f (F n) n = g (F n) n) : F N = G N := by
  have : ∀ n, n ≤ N → F n = G n := by
    intro n
    induction n with
    | zero => intro _; exact h0
    | succ n ih =>
      intro hn
      have e := ih (by omega)
      rw [hF, hG, ← e]; exact h n (by omega) e
  exact this N le_rfl

/-! Positions of the non-zero elements: a function with NTH (CNT i) = i at every element that is not zero exists. -/
theorem nth_exists (P : ℕ → Prop) [DecidablePred P] : ∃ f : ℕ → ℕ, ∀ i, P i → f (Nat.count P i) = i :=
  ⟨Nat.nth P, fun _ h => Nat.nth_count h⟩

open Matrix Finset
/-! Determinants. `D M c n` is the determinant of rows and columns c .. n-1 of the elements M. -/
namespace Det
variable {K : Type*} [Field K]
def blk (M : ℕ → ℕ → K) (c n : ℕ) : Matrix (Fin (n - c)) (Fin (n - c)) K := fun i j => M (c + i) (c + j)
noncomputable def D (M : ℕ → ℕ → K) (c n : ℕ) : K := (blk M c n).det

theorem det_empty (M : ℕ → ℕ → K) (c n : ℕ) (h : c = n) : D M c n = 1 := by
  subst h
  have : IsEmpty (Fin (c - c)) := by rw [Nat.sub_self]; infer_instance
  exact Matrix.det_isEmpty

theorem det_ext (M X : ℕ → ℕ → K) (c n : ℕ) (h : ∀ u v, c ≤ u → u < n → c ≤ v → v < n → X u v = M u v) :
    D X c n = D M c n := by
  unfold D; congr 1; ext i j
  exact h _ _ (by omega) (by omega) (by omega) (by omega)

theorem det_zero_column (M : ℕ → ℕ → K) (c n : ℕ) (hc : c < n) (h : ∀ w, c ≤ w → w < n → M w c = 0) :
    D M c n = 0 := by
  apply Matrix.det_eq_zero_of_column_eq_zero (⟨0, by omega⟩ : Fin (n - c))
  intro i
  exact h _ (by omega) (by omega)

theorem det_swap (M X : ℕ → ℕ → K) (c d n : ℕ) (hd : c < d) (hn : d < n)
    (h : ∀ u v, c ≤ u → u < n → c ≤ v → v < n → X u v = if u = c then M d v else if u = d then M c v else M u v) :
    D X c n = - D M c n := by
  unfold D
  let i0 : Fin (n - c) := ⟨0, by omega⟩
  let i1 : Fin (n - c) := ⟨d - c, by omega⟩
  have hne : i0 ≠ i1 := by simp [i0, i1, Fin.ext_iff]; omega
  have : blk X c n = (blk M c n).submatrix (Equiv.swap i0 i1) id := by
    ext i j
    rw [Matrix.submatrix_apply]
    show X (c + i) (c + j) = M (c + (Equiv.swap i0 i1 i : Fin (n - c))) (c + j)
    rw [h _ _ (by omega) (by omega) (by omega) (by omega)]
    by_cases h1 : i = i0
    · subst h1; rw [Equiv.swap_apply_left]; simp [i0, i1]; congr 1; omega
    · have : (i : ℕ) ≠ 0 := fun e => h1 (Fin.ext e)
      rw [if_neg (by omega)]
      by_cases h2 : i = i1
      · subst h2; rw [Equiv.swap_apply_right]; rw [if_pos (by simp [i1]; omega)]; simp [i0]
      · have : (i : ℕ) ≠ d - c := fun e => h2 (Fin.ext e)
        rw [if_neg (by omega), Equiv.swap_apply_of_ne_of_ne h1 h2]
  rw [this, Matrix.det_permute]
  simp [Equiv.Perm.sign_swap hne]

theorem det_eliminate (M X : ℕ → ℕ → K) (c n : ℕ) (hc : c < n) (hp : M c c ≠ 0)
    (h : ∀ u v, c ≤ u → u < n → c < v → v < n →
      X u v = if u = c then M u v else M u v - M u c / M c c * M c v) :
    M c c * D X (c + 1) n = D M c n := by
  obtain ⟨m, rfl⟩ : ∃ m, n = c + (m + 1) := ⟨n - c - 1, by omega⟩
  let A : Matrix (Fin (m + 1)) (Fin (m + 1)) K := fun i j => M (c + i) (c + j)
  let B : Matrix (Fin (m + 1)) (Fin (m + 1)) K := fun i j => if i = 0 then A 0 j else A i j - A i 0 / A 0 0 * A 0 j
  have e1 : D M c (c + (m + 1)) = A.det := by
    unfold D
    have hs : c + (m + 1) - c = m + 1 := by omega
    rw [← Matrix.det_submatrix_equiv_self (finCongr hs.symm)]
    rfl
  have e2 : A.det = B.det := by
    apply Matrix.det_eq_of_forall_row_eq_smul_add_const (fun i => if i = 0 then 0 else A i 0 / A 0 0) 0
    · simp
    · intro i j
      by_cases hi : i = 0
      · subst hi; simp [B]
      · simp [B, hi]
  have hA : A 0 0 = M c c := by simp [A]
  have e3 : B.det = M c c * (B.submatrix Fin.succ Fin.succ).det := by
    rw [Matrix.det_succ_column_zero, Finset.sum_eq_single 0]
    · simp [B, hA]
    · intro i _ hi
      have : B i 0 = 0 := by
        simp only [B, hi, if_false]; rw [div_mul_cancel₀ _ (by rw [hA]; exact hp), sub_self]
      rw [this]; simp
    · simp
  have e4 : D X (c + 1) (c + (m + 1)) = (B.submatrix Fin.succ Fin.succ).det := by
    unfold D
    have hs : c + (m + 1) - (c + 1) = m := by omega
    rw [← Matrix.det_submatrix_equiv_self (finCongr hs.symm)]
    congr 1
    ext i j
    have hi := i.2
    have hj := j.2
    simp only [Matrix.submatrix_apply, blk, finCongr_apply, Fin.val_cast]
    rw [h (c + 1 + i) (c + 1 + j) (by omega) (by omega) (by omega) (by omega), if_neg (by omega)]
    simp only [B, Fin.succ_ne_zero, if_false, A, Fin.val_succ, Fin.val_zero, add_zero]
    have a1 : c + 1 + (i : ℕ) = c + (i + 1) := by omega
    have a2 : c + 1 + (j : ℕ) = c + (j + 1) := by omega
    rw [a1, a2]
  rw [e1, e2, e3, e4]

/-- the sums over the permutations used for up to four rows -/
theorem det_one (A : Matrix (Fin 1) (Fin 1) K) : A.det = A 0 0 := by simp
theorem det_two (A : Matrix (Fin 2) (Fin 2) K) : A.det = A 0 0 * A 1 1 - A 0 1 * A 1 0 := by
  rw [Matrix.det_fin_two]
theorem leibniz_is_det {n : ℕ} (A : Matrix (Fin n) (Fin n) K) :
    A.det = ∑ p : Equiv.Perm (Fin n), (Equiv.Perm.sign p : ℤ) * ∏ i, A i (p i) := by
  rw [← Matrix.det_transpose, Matrix.det_apply']; rfl

/-- adjugate: the transposed signed minors -/
theorem adjugate_entry {n : ℕ} (A : Matrix (Fin (n + 1)) (Fin (n + 1)) K) (r c : Fin (n + 1)) :
    A.adjugate r c = (-1) ^ ((r : ℕ) + c) * (A.submatrix c.succAbove r.succAbove).det := by
  rw [Matrix.adjugate_fin_succ_eq_det_submatrix, add_comm (c : ℕ)]
theorem mul_adjugate {n : ℕ} (A : Matrix (Fin n) (Fin n) K) : A * A.adjugate = A.det • 1 := Matrix.mul_adjugate A
theorem inverse_is_inverse {n : ℕ} (A B : Matrix (Fin n) (Fin n) K) (h : A.det ≠ 0)
    (hB : ∀ r c, B r c = A.adjugate r c / A.det) : A * B = 1 ∧ B * A = 1 := by
  have hb : B = A.det⁻¹ • A.adjugate := by ext r c; simp [hB, div_eq_inv_mul]
  subst hb
  constructor
  · rw [Matrix.mul_smul, Matrix.mul_adjugate, smul_smul, inv_mul_cancel₀ h, one_smul]
  · rw [Matrix.smul_mul, Matrix.adjugate_mul, smul_smul, inv_mul_cancel₀ h, one_smul]
theorem singular_iff {n : ℕ} (A : Matrix (Fin n) (Fin n) K) : A.det = 0 ↔ ¬ ∃ B, A * B = 1 := by
  constructor
  · rintro h ⟨B, hB⟩
    have := congrArg Matrix.det hB
    rw [Matrix.det_mul, h, zero_mul, Matrix.det_one] at this
    exact zero_ne_one this
  · intro h
    by_contra hd
    exact h ⟨A⁻¹, Matrix.mul_nonsing_inv A (Ne.isUnit hd)⟩
end Det

/-! LU (Crout): unit upper triangular U. -/
namespace LU
variable {K : Type*} [Field K]
theorem lu_product (n : ℕ) (A L U : ℕ → ℕ → K)
    (hL : ∀ j i, i ≤ j → L j i = A j i - ∑ k ∈ range i, L j k * U k i)
    (hL0 : ∀ j i, j < i → L j i = 0)
    (hU : ∀ i j, i < j → U i j = A i j / L i i - ∑ k ∈ range i, L i k * U k j / L i i)
    (hU1 : ∀ i, U i i = 1) (hU0 : ∀ i j, j < i → U i j = 0)
    (hp : ∀ i, i < n → L i i ≠ 0) (r c : ℕ) (hr : r < n) (hc : c < n) :
    ∑ k ∈ range n, L r k * U k c = A r c := by
  rcases le_or_gt c r with h | h
  · have : ∑ k ∈ range n, L r k * U k c = ∑ k ∈ range (c + 1), L r k * U k c := by
      symm
      apply Finset.sum_subset (by intro x; simp; omega)
      intro k _ hk
      have : c < k := by simp at hk; omega
      rw [hU0 k c this, mul_zero]
    rw [this, Finset.sum_range_succ, hU1, hL r c h]; ring
  · have : ∑ k ∈ range n, L r k * U k c = ∑ k ∈ range (r + 1), L r k * U k c := by
      symm
      apply Finset.sum_subset (by intro x; simp; omega)
      intro k _ hk
      have : r < k := by simp at hk; omega
      rw [hL0 r k this, zero_mul]
    rw [this, Finset.sum_range_succ, hU r c h, ← Finset.sum_div]
    have := hp r hr
    field_simp
    ring
end LU
open Polynomial
/-! Coefficients of a polynomial given by its roots. -/
namespace Poly
variable {R : Type*} [CommRing R]
theorem coefficients (a : ℕ → R) (CO : ℕ → ℕ → R) (h0 : ∀ i, CO 0 i = if i = 0 then 1 else 0)
    (hs : ∀ n i, CO (n + 1) i = (if i ≤ n then CO n i else 0) - (if 1 ≤ i then a n * CO n (i - 1) else 0))
    (n : ℕ) : (∀ i, i ≤ n → CO n i = (∏ t ∈ range n, (X - C (a t))).coeff (n - i)) ∧ ∀ i, n < i → CO n i = 0 := by
  induction n with
  | zero =>
    constructor
    · intro i hi; obtain rfl : i = 0 := by omega
      simp [h0]
    · intro i hi; rw [h0, if_neg (by omega)]
  | succ n ih =>
    obtain ⟨ih1, ih2⟩ := ih
    have hdeg : (∏ t ∈ range n, (X - C (a t))).natDegree ≤ n := by
      refine (natDegree_prod_le _ _).trans ?_
      have : ∀ t ∈ range n, (X - C (a t)).natDegree ≤ 1 := fun i _ => natDegree_X_sub_C_le _
      simpa using Finset.sum_le_sum this
    constructor
    · intro i hi
      rw [hs, prod_range_succ, mul_sub]
      rcases Nat.eq_zero_or_pos i with rfl | hp
      · simp only [Nat.zero_le, if_true, Nat.sub_zero]
        rw [ih1 0 (by omega), coeff_sub, coeff_mul_X, coeff_mul_C, coeff_eq_zero_of_natDegree_lt (n := n + 1) (by omega)]
        simp
      · have e : n + 1 - i = n - (i - 1) := by omega
        rw [if_pos (by omega : 1 ≤ i), ih1 (i - 1) (by omega), coeff_sub, coeff_mul_C, e, mul_comm (a n)]
        congr 1
        by_cases hn : i ≤ n
        · rw [if_pos hn, ih1 i hn]
          have : n - (i - 1) = (n - i) + 1 := by omega
          rw [this, coeff_mul_X]
        · have : n - (i - 1) = 0 := by omega
          rw [if_neg hn, this, coeff_mul_X_zero]
    · intro i hi
      rw [hs, if_neg (by omega), if_pos (by omega), ih2 (i - 1) (by omega)]; simp
end Poly

/-! Faddeev-LeVerrier. -/
namespace LeVerrier
variable {K : Type*} [Field K]

theorem derivative_det {n : ℕ} (M : Matrix (Fin n) (Fin n) K[X]) :
    derivative M.det = ∑ i, (M.updateRow i (fun j => derivative (M i j))).det := by
  simp only [Matrix.det_apply]
  rw [derivative_sum, Finset.sum_comm]
  refine Finset.sum_congr rfl (fun σ _ => ?_)
  rw [derivative_smul, derivative_prod_finset, Finset.smul_sum]
  refine (Finset.sum_equiv σ (by simp) ?_)
  intro i _
  congr 1
  rw [← Finset.mul_prod_erase Finset.univ (fun k => M.updateRow (σ i) (fun j => derivative (M (σ i) j)) (σ k) k) (Finset.mem_univ i)]
  rw [mul_comm, Matrix.updateRow_self]
  congr 1
  refine Finset.prod_congr rfl (fun k hk => ?_)
  rw [Matrix.updateRow_ne]
  intro h; exact (Finset.ne_of_mem_erase hk) (σ.injective h)

theorem derivative_charpoly {n : ℕ} (A : Matrix (Fin n) (Fin n) K) :
    derivative A.charpoly = (A.charmatrix.adjugate).trace := by
  rw [Matrix.charpoly, derivative_det, Matrix.trace]
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [Matrix.diag_apply, Matrix.adjugate_apply]
  congr 1
  ext1 k
  by_cases hk : k = i
  · subst hk; simp only [Matrix.updateRow_self]
    intro j
    by_cases hj : k = j
    · subst hj; simp [Matrix.charmatrix_apply_eq]
    · rw [Matrix.charmatrix_apply_ne _ _ _ hj]; simp [Ne.symm hj]
  · simp [Matrix.updateRow_ne hk]

theorem faddeev_leverrier [CharZero K] {n : ℕ} (A : Matrix (Fin n) (Fin n) K) (B : ℕ → Matrix (Fin n) (Fin n) K) (l : ℕ → K)
    (hB : B 2 = A) (hl : ∀ m, 2 ≤ m → l m = (B m).trace / ((m - 1 : ℕ) : K))
    (hs : ∀ m, 2 ≤ m → B (m + 1) = A * (B m - l m • 1)) (m : ℕ) (h2 : 2 ≤ m) (hm : m ≤ n + 1) :
    - l m = A.charpoly.coeff (n + 1 - m) := by
  let N := matPolyEquiv A.charmatrix.adjugate
  have hN : (X - C A) * N = A.charpoly.map (algebraMap K _) := by
    rw [← matPolyEquiv_charmatrix, ← map_mul, Matrix.mul_adjugate, ← matPolyEquiv_smul_one]; rfl
  have hrec : ∀ k, N.coeff k - A * N.coeff (k + 1) = A.charpoly.coeff (k + 1) • 1 := by
    intro k
    have := congrArg (fun p => p.coeff (k + 1)) hN
    simpa [sub_mul, coeff_X_mul, Algebra.algebraMap_eq_smul_one] using this
  have htr : ∀ k, (N.coeff k).trace = A.charpoly.coeff (k + 1) * (k + 1) := by
    intro k
    have := congrArg (fun p => p.coeff k) (derivative_charpoly A)
    simp only [coeff_derivative] at this
    rw [this, Matrix.trace, Matrix.trace, finsetSum_coeff]
    exact Finset.sum_congr rfl (fun i _ => matPolyEquiv_coeff_apply _ _ _ _)
  have hdeg : A.charpoly.natDegree = n := by simp
  have hz : ∀ k, n ≤ k → N.coeff k = 0 := by
    by_contra hc
    push Not at hc
    obtain ⟨k, hk, hk0⟩ := hc
    have h1 : n ≤ N.natDegree := hk.trans (le_natDegree_of_ne_zero hk0)
    have h2 := hrec N.natDegree
    rw [coeff_eq_zero_of_natDegree_lt (Nat.lt_succ_self _), mul_zero, sub_zero,
      coeff_eq_zero_of_natDegree_lt (p := A.charpoly) (by omega), zero_smul] at h2
    have : N = 0 := by rwa [coeff_natDegree, leadingCoeff_eq_zero] at h2
    rw [this] at hk0; simp at hk0
  have top : A.charpoly.coeff n = 1 := by
    have := A.charpoly_monic
    rwa [Monic, leadingCoeff, hdeg] at this
  have lam : ∀ j, j + 1 ≤ n → B (j + 2) = A * N.coeff (n - 1 - j) → l (j + 2) = - A.charpoly.coeff (n - 1 - j) := by
      intro j hj hBj
      rw [hl _ (by omega), hBj]
      have hne : ((j + 2 - 1 : ℕ) : K) ≠ 0 := by exact_mod_cast (by omega : j + 2 - 1 ≠ 0)
      rw [div_eq_iff hne]
      rcases Nat.eq_zero_or_pos (n - 1 - j) with h0 | h0
      · have e := congrArg (fun p => p.coeff 0) hN
        have e2 : - (A * N.coeff 0) = A.charpoly.coeff 0 • 1 := by
          simpa [sub_mul, Algebra.algebraMap_eq_smul_one] using e
        have e3 := congrArg Matrix.trace e2
        rw [Matrix.trace_neg, Matrix.trace_smul, Matrix.trace_one, Fintype.card_fin] at e3
        rw [h0]
        have : j + 2 - 1 = n := by omega
        rw [this]; rw [smul_eq_mul] at e3; linear_combination -e3
      · obtain ⟨k, hk⟩ : ∃ k, n - 1 - j = k + 1 := ⟨n - 1 - j - 1, by omega⟩
        rw [hk]
        have e3 := congrArg Matrix.trace (hrec k)
        rw [Matrix.trace_sub, Matrix.trace_smul, Matrix.trace_one, Fintype.card_fin, htr k] at e3
        have hn : (n : K) = (k + 1 : K) + ((j + 2 - 1 : ℕ) : K) := by
          have : n = k + 1 + (j + 2 - 1) := by omega
          exact_mod_cast congrArg (Nat.cast : ℕ → K) this
        rw [smul_eq_mul, hn] at e3
        linear_combination -e3
  have key : ∀ j, j + 1 ≤ n → B (j + 2) = A * N.coeff (n - 1 - j) ∧ l (j + 2) = - A.charpoly.coeff (n - 1 - j) := by
    intro j
    induction j with
    | zero =>
      intro hj
      have e := hrec (n - 1)
      rw [hz (n - 1 + 1) (by omega), mul_zero, sub_zero] at e
      have hn : n - 1 + 1 = n := by omega
      rw [hn, top, one_smul] at e
      have hB0 : B (0 + 2) = A * N.coeff (n - 1 - 0) := by rw [Nat.sub_zero, e, mul_one, zero_add, hB]
      exact ⟨hB0, lam 0 hj hB0⟩
    | succ j ih =>
      intro hj
      obtain ⟨hb, hl'⟩ := ih (by omega)
      have e := hrec (n - 1 - (j + 1))
      have hn : n - 1 - (j + 1) + 1 = n - 1 - j := by omega
      rw [hn] at e
      have hB1 : B (j + 1 + 2) = A * N.coeff (n - 1 - (j + 1)) := by
        have : j + 1 + 2 = (j + 2) + 1 := by omega
        rw [this, hs _ (by omega), hb, hl', neg_smul, sub_neg_eq_add, ← e]
        congr 1; abel
      exact ⟨hB1, lam _ hj hB1⟩
  obtain ⟨j, rfl⟩ : ∃ j, m = j + 2 := ⟨m - 2, by omega⟩
  rw [(key j (by omega)).2, neg_neg]
  congr 1; omega
end LeVerrier
/-! Ackermann's formula places the poles. -/
namespace Acker
variable {K : Type*} [Field K] {n : ℕ}

/-- B a column, Cm the controllability matrix [B, AB, ..], p monic of degree n, g = [0 .. 0 1] * Cm^-1 * p(A):
the characteristic polynomial of A - B*g is p -/
theorem pole_placement (A : Matrix (Fin n) (Fin n) K) (b g h : Fin n → K) (p : K[X])
    (hp : p.Monic) (hdeg : p.natDegree = n)
    (hlow : ∀ i, i + 1 < n → h ⬝ᵥ ((A ^ i) *ᵥ b) = 0) (htop : 0 < n → h ⬝ᵥ ((A ^ (n - 1)) *ᵥ b) = 1)
    (hg : g = h ᵥ* (aeval A p)) :
    (A - vecMulVec b g).charpoly = p := by
  rcases Nat.eq_zero_or_pos n with h0 | hn
  · subst h0
    rw [hp.natDegree_eq_zero.mp hdeg]
    exact (Matrix.charpoly_monic _).natDegree_eq_zero.mp (by simp)
  set M := A - vecMulVec b g with hM
  have rowstep : ∀ v : Fin n → K, v ᵥ* M = v ᵥ* A - (v ⬝ᵥ b) • g := by
    intro v
    rw [hM, Matrix.vecMul_sub, Matrix.vecMul_vecMulVec]
  have dot : ∀ i, (h ᵥ* A ^ i) ⬝ᵥ b = h ⬝ᵥ (A ^ i *ᵥ b) := fun i => (Matrix.dotProduct_mulVec _ _ _).symm
  have pw : ∀ i, i < n → h ᵥ* M ^ i = h ᵥ* A ^ i := by
    intro i
    induction i with
    | zero => simp
    | succ i ih =>
      intro hi
      rw [pow_succ, ← Matrix.vecMul_vecMul, ih (by omega), rowstep, dot, hlow i hi, zero_smul, sub_zero, pow_succ,
        ← Matrix.vecMul_vecMul]
  have pn : h ᵥ* M ^ n = h ᵥ* A ^ n - g := by
    obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
    have ht := htop (by omega)
    rw [pow_succ, ← Matrix.vecMul_vecMul, pw m (by omega), rowstep, dot]
    rw [show m + 1 - 1 = m from rfl] at ht
    rw [ht, one_smul, pow_succ, ← Matrix.vecMul_vecMul]
  have vsum : ∀ (X : Matrix (Fin n) (Fin n) K) (q : K[X]) , h ᵥ* aeval X q = ∑ i ∈ range (q.natDegree + 1), q.coeff i • (h ᵥ* X ^ i) := by
    intro X q
    rw [aeval_eq_sum_range, Matrix.vecMul_sum]
    exact Finset.sum_congr rfl (fun i _ => Matrix.vecMul_smul _ _ _)
  have zero : h ᵥ* aeval M p = 0 := by
    have e : h ᵥ* aeval M p = h ᵥ* aeval A p - g := by
      rw [vsum, vsum, hdeg, sum_range_succ, sum_range_succ]
      have hc : p.coeff n = 1 := by rw [← hdeg]; exact hp
      rw [hc, one_smul, one_smul, pn, Finset.sum_congr rfl (fun i hi => by rw [pw i (Finset.mem_range.mp hi)])]
      abel
    rw [e, ← hg, sub_self]
  -- the rows h, hA, .., hA^(n-1) are linearly independent: a polynomial of degree < n with h q(M) = 0 is zero
  have indep : ∀ q : K[X], q.natDegree < n → h ᵥ* aeval M q = 0 → q = 0 := by
    intro q hq hz
    by_contra hne
    have e : h ᵥ* aeval A q = 0 := by
      rw [← hz, vsum, vsum]
      exact Finset.sum_congr rfl (fun i hi => by rw [pw i (by have := Finset.mem_range.mp hi; omega)])
    -- h q(A) A^(n-1-deg q) b = leading coefficient
    have e2 : h ⬝ᵥ ((aeval A (q * X ^ (n - 1 - q.natDegree))) *ᵥ b) = 0 := by
      rw [map_mul, ← Matrix.mulVec_mulVec, Matrix.dotProduct_mulVec, e, zero_dotProduct]
    have e3 : h ⬝ᵥ ((aeval A (q * X ^ (n - 1 - q.natDegree))) *ᵥ b) = q.leadingCoeff := by
      rw [map_mul, map_pow, aeval_X, aeval_eq_sum_range, Finset.sum_mul, Matrix.sum_mulVec, dotProduct_sum, sum_range_succ,
        Finset.sum_eq_zero, zero_add]
      · rw [smul_mul_assoc, ← pow_add, Matrix.smul_mulVec, dotProduct_smul]
        have : q.natDegree + (n - 1 - q.natDegree) = n - 1 := by omega
        rw [this, htop hn]; simp
      · intro i hi
        have := Finset.mem_range.mp hi
        rw [smul_mul_assoc, ← pow_add, Matrix.smul_mulVec, dotProduct_smul, hlow _ (by omega), smul_zero]
    rw [e3] at e2
    exact hne (leadingCoeff_eq_zero.mp e2)
  -- p - charpoly M has degree < n and is annihilated
  have hc : h ᵥ* aeval M M.charpoly = 0 := by rw [Matrix.aeval_self_charpoly, Matrix.vecMul_zero]
  have cm := M.charpoly_monic
  have cd : M.charpoly.natDegree = n := by simp
  have hd : (M.charpoly - p) = 0 := by
    apply indep
    · by_cases hz : M.charpoly - p = 0
      · rw [hz]; simpa using hn
      · have := degree_sub_lt_left (p := M.charpoly) (q := p) (by rw [degree_eq_natDegree cm.ne_zero, degree_eq_natDegree hp.ne_zero, cd, hdeg])
          cm.ne_zero (by rw [cm.leadingCoeff, hp.leadingCoeff])
        rw [degree_eq_natDegree hz, degree_eq_natDegree cm.ne_zero, cd] at this
        exact_mod_cast this
    · rw [map_sub, Matrix.vecMul_sub, hc, zero, sub_zero]
  exact sub_eq_zero.mp hd
end Acker

/-! No theorem depends on anything but the standard axioms. -/
#print axioms Arith.lin_comm
#print axioms Arith.mul_positive
#print axioms Arith.div_positive
#print axioms Arith.exists_halving
#print axioms Arith.div_is_mul
#print axioms Arith.prod_commutes
#print axioms Arith.lin_dv_md
#print axioms Arith.lin_lt_prod
#print axioms Arith.dv_md_lin
#print axioms Arith.dv_lt
#print axioms Arith.prod_facts
#print axioms Arith.prod_bound
#print axioms Arith.lin_order
#print axioms Arith.dv_one
#print axioms Arith.dv_small
#print axioms Arith.prod_succ
#print axioms Arith.prod_mono
#print axioms Arith.dv_shift
#print axioms Arith.real_product_commutes
#print axioms fold_ext
#print axioms nth_exists
#print axioms Det.det_empty
#print axioms Det.det_ext
#print axioms Det.det_zero_column
#print axioms Det.det_swap
#print axioms Det.det_eliminate
#print axioms Det.det_one
#print axioms Det.det_two
#print axioms Det.leibniz_is_det
#print axioms Det.adjugate_entry
#print axioms Det.mul_adjugate
#print axioms Det.inverse_is_inverse
#print axioms Det.singular_iff
#print axioms LU.lu_product
#print axioms Poly.coefficients
#print axioms LeVerrier.derivative_det
#print axioms LeVerrier.derivative_charpoly
#print axioms LeVerrier.faddeev_leverrier
#print axioms Acker.pole_placement
