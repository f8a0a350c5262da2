import Mathlib.NumberTheory.Bertrand
import Mathlib.Tactic

/-!
Arithmetic behind the contracts of `utils` and of points in general position.
`IsP` is the definition the contract of `utils._is_prime` is proved against.
-/

def IsP (v : ℤ) : Prop :=
  v % 3 ≠ 0 ∧ ∀ j : ℤ, 1 ≤ j → (6 * j - 1) * (6 * j - 1) ≤ v →
    ¬ (v % (6 * j - 1) = 0 ∨ v % (6 * j + 1) = 0)

theorem isP_one : IsP 1 := by
  refine ⟨by norm_num, fun j hj h => ?_⟩
  nlinarith

theorem isP_of_prime {p : ℕ} (hp : p.Prime) (h3 : 3 < p) : IsP (p : ℤ) := by
  have key : ∀ d : ℤ, 1 < d → d < p → ¬ ((p : ℤ) % d = 0) := by
    intro d h1 h2 h
    have hd : d ∣ (p : ℤ) := Int.dvd_of_emod_eq_zero h
    lift d to ℕ using by omega
    have : d ∣ p := by exact_mod_cast hd
    rcases (Nat.dvd_prime hp).1 this with h | h
    · subst h; norm_num at h1
    · subst h; exact lt_irrefl _ h2
  refine ⟨key 3 (by norm_num) (by exact_mod_cast h3), fun j hj h => ?_⟩
  rintro (h' | h')
  · exact key (6 * j - 1) (by omega) (by nlinarith) h'
  · exact key (6 * j + 1) (by omega) (by nlinarith) h'

/-- The trusted fact `bertrand` of spec_base.py. -/
theorem bertrand (v : ℤ) (hv : 2 < v) :
    ∃ b, v ≤ b ∧ b ≤ 2 * v - 1 ∧ b % 2 = 1 ∧ IsP b := by
  lift v to ℕ using by omega
  have hv : 2 < v := by exact_mod_cast hv
  rcases eq_or_lt_of_le (show 3 ≤ v from hv) with h | h
  · refine ⟨5, by omega, by omega, by norm_num, ?_⟩
    exact_mod_cast isP_of_prime (p := 5) (by norm_num) (by norm_num)
  · obtain ⟨p, hp, h1, h2⟩ :=
      Nat.exists_prime_lt_and_le_two_mul (v - 1) (by omega)
    refine ⟨p, by omega, by omega, ?_, isP_of_prime hp (by omega)⟩
    rcases hp.eq_two_or_odd with h | h
    · omega
    · omega

/-- Odd numbers above 1 accepted by `_is_prime` are primes. -/
theorem prime_of_isP (v : ℕ) (h1 : 1 < v) (h2 : v % 2 = 1)
    (h : IsP (v : ℤ)) : v.Prime := by
  by_contra hc
  obtain ⟨h3, hd⟩ := h
  have hm := Nat.minFac_prime (show v ≠ 1 by omega)
  have hdvd := Nat.minFac_dvd v
  set m := v.minFac with hmdef
  have hsq : m * m ≤ v := by
    have := Nat.minFac_sq_le_self (show 0 < v by omega) hc
    simpa [sq, hmdef] using this
  have hm2 : m % 2 = 1 := by
    rcases hm.eq_two_or_odd with h | h
    · rw [h] at hdvd; omega
    · exact h
  have hm3 : m % 3 ≠ 0 := by
    intro h
    have : 3 ∣ v := (Nat.dvd_of_mod_eq_zero h).trans hdvd
    omega
  have hge : 5 ≤ m := by
    have := hm.two_le
    by_contra hlt
    interval_cases m <;> omega
  have hz : (v : ℤ) % (m : ℤ) = 0 := by
    exact_mod_cast Nat.mod_eq_zero_of_dvd hdvd
  have hsqz : (m : ℤ) * m ≤ v := by exact_mod_cast hsq
  have h6 : m % 6 = 5 ∨ m % 6 = 1 := by omega
  rcases h6 with h6 | h6
  · refine hd ((m : ℤ) / 6 + 1) (by omega) ?_ (Or.inl ?_)
    · have : 6 * ((m : ℤ) / 6 + 1) - 1 = m := by omega
      rw [this]; exact hsqz
    · have : 6 * ((m : ℤ) / 6 + 1) - 1 = m := by omega
      rw [this]; exact hz
  · refine hd ((m : ℤ) / 6) (by omega) ?_ (Or.inr ?_)
    · have : 6 * ((m : ℤ) / 6) = m - 1 := by omega
      rw [this]; nlinarith
    · have : 6 * ((m : ℤ) / 6) + 1 = m := by omega
      rw [this]; exact hz

/-- Residues of a scaled square: no value is taken three times; nor by the
sums and differences with the index. -/
theorem sparse (p : ℕ) (hp : p.Prime) (h2 : p % 2 = 1) (s : ℤ)
    (hs : ¬ (p : ℤ) ∣ s) (c : ℤ) (i j k : ℤ)
    (hi : 0 ≤ i) (hij : i < j) (hjk : j < k) (hk : k < p)
    (f : ℤ → ℤ) (hf : ∀ x, f x = c * x + (s * (x * x)) % p)
    (h : f i = f j) (h' : f j = f k) : False := by
  have hpz : Prime (p : ℤ) := Nat.prime_iff_prime_int.1 hp
  have step : ∀ x y : ℤ, 0 ≤ x → x < y → y < p → f x = f y →
      (p : ℤ) ∣ c + s * (x + y) := by
    intro x y hx hxy hy hxy'
    rw [hf, hf] at hxy'
    have e1 := Int.emod_add_mul_ediv (s * (x * x)) p
    have e2 := Int.emod_add_mul_ediv (s * (y * y)) p
    have : (p : ℤ) ∣ (y - x) * (c + s * (x + y)) :=
      ⟨s * (y * y) / p - s * (x * x) / p, by nlinarith⟩
    rcases hpz.dvd_or_dvd this with hd | hd
    · have := Int.le_of_dvd (by omega) hd
      omega
    · exact hd
  have a := step i j hi hij (by omega) h
  have b := step i k hi (by omega) hk (h.trans h')
  have : (p : ℤ) ∣ s * (k - j) := by
    have := dvd_sub b a
    have e : c + s * (i + k) - (c + s * (i + j)) = s * (k - j) := by ring
    rwa [e] at this
  rcases hpz.dvd_or_dvd this with hd | hd
  · exact hs hd
  · have := Int.le_of_dvd (by omega) hd
    omega
