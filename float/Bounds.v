(* The facts about f64 that contracts/f64_bounds.vc and contracts/prepare.vc assume, proved for IEEE 754 binary64 (Flocq).
   Rust's f64 operators and sqrt round to nearest, ties to even; round() goes to the nearest integer, ties away from zero;
   `as u32` cuts off the fraction and saturates; a conversion from u8 or u32 rounds to nearest. *)
From Coq Require Import ZArith Reals Lia Lra.
From Flocq Require Import Core.Core IEEE754.BinarySingleNaN.
Open Scope Z_scope.

Definition f64 := binary_float 53 1024.
Definition val (f : f64) : R := B2R f.
#[global] Instance p0 : Prec_gt_0 53. Proof. reflexivity. Qed.
#[global] Instance pe : Prec_lt_emax 53 1024. Proof. reflexivity. Qed.

Definition add (a b : f64) : f64 := Bplus mode_NE a b.
Definition sub (a b : f64) : f64 := Bminus mode_NE a b.
Definition mul (a b : f64) : f64 := Bmult mode_NE a b.
Definition div (a b : f64) : f64 := Bdiv mode_NE a b.
Definition root (a : f64) : f64 := Bsqrt mode_NE a.
(* m * 2^e *)
Definition of_Z (m e : Z) : f64 := binary_normalize 53 1024 p0 pe mode_NE m e false.
Definition from_spec (k : Z) : f64 := of_Z k 0.
Definition f64_to_u32_rounded (a : f64) : Z :=
  match a with
  | B754_nan => 0
  | B754_infinity s => if s then 0 else 4294967295
  | _ => Z.max 0 (Z.min (ZnearestA (val a)) 4294967295)
  end.
Definition above (a b : f64) : Prop := Bcompare a b = Some Gt.

Definition within (f : f64) (l h : Z) : Prop := is_finite f = true /\ (IZR l <= val f <= IZR h)%R.
Definition exact (n : Z) : Prop := -9007199254740992 <= n <= 9007199254740992 \/ n = 288230376151711744 \/ n = 576460752303423488 \/ n = 1152921504606846976.

Notation fexp := (SpecFloat.fexp 53 1024).
Notation rnd := (round radix2 fexp (round_mode mode_NE)).

Lemma fexp_valid : Valid_exp fexp. Proof. apply (fexp_correct 53 1024); reflexivity. Qed.
#[global] Existing Instance fexp_valid.
Lemma small_format m e : Z.abs m < 9007199254740992 -> -1074 <= e -> generic_format radix2 fexp (F2R (Float radix2 m e)).
Proof.
  intros Hm He. change fexp with (FLT_exp (-1074) 53).
  apply generic_format_FLT. exists (Float radix2 m e); auto.
Qed.
Lemma pow_format e : 0 <= e -> generic_format radix2 fexp (IZR (2 ^ e)).
Proof.
  intros He. replace (IZR (2 ^ e)) with (F2R (Float radix2 1 e)).
  - apply small_format; simpl; lia.
  - unfold F2R; simpl Fnum; simpl Fexp. rewrite Rmult_1_l. symmetry. change 2 with (radix_val radix2) at 1. apply IZR_Zpower; auto.
Qed.
Lemma exact_format n : exact n -> generic_format radix2 fexp (IZR n).
Proof.
  intros [H | [H | [H | H]]].
  - destruct (Z.eq_dec n 9007199254740992) as [->|N1]; [exact (pow_format 53 ltac:(lia))|].
    destruct (Z.eq_dec n (-9007199254740992)) as [->|N2].
    { change (-9007199254740992) with (- 2 ^ 53). rewrite opp_IZR. apply generic_format_opp. apply pow_format; lia. }
    replace (IZR n) with (F2R (Float radix2 n 0)) by (unfold F2R; simpl; ring). apply small_format; lia.
  - subst; exact (pow_format 58 ltac:(lia)).
  - subst; exact (pow_format 59 ltac:(lia)).
  - subst; exact (pow_format 60 ltac:(lia)).
Qed.
Lemma exact_small n : exact n -> -9007199254740992 <= n <= 2 ^ 60.
Proof. intros [H | [H | [H | H]]]; subst; lia. Qed.

(* rounding keeps to exact bounds and does not overflow there *)
Lemma rnd_bounds x l h : exact l -> exact h -> (IZR l <= x <= IZR h)%R -> (IZR l <= rnd x <= IZR h)%R.
Proof.
  intros Hl Hh [H1 H2]; split.
  - apply round_ge_generic; [typeclasses eauto | typeclasses eauto | apply exact_format; auto | auto].
  - apply round_le_generic; [typeclasses eauto | typeclasses eauto | apply exact_format; auto | auto].
Qed.
Lemma rnd_small x l h : exact l -> exact h -> (IZR l <= x <= IZR h)%R -> Rlt_bool (Rabs (rnd x)) (bpow radix2 1024) = true.
Proof.
  intros Hl Hh H. pose proof (rnd_bounds x l h Hl Hh H) as [A B].
  apply Rlt_bool_true. apply Rle_lt_trans with (IZR (2 ^ 60)).
  - pose proof (exact_small l Hl) as [C _]. pose proof (exact_small h Hh) as [_ D].
    apply IZR_le in C. apply IZR_le in D. apply Rabs_le. split; [|lra].
    apply Rle_trans with (2 := A). apply Rle_trans with (2 := C). rewrite <- opp_IZR. apply IZR_le. lia.
  - change (2 ^ 60) with (Zpower radix2 60). rewrite IZR_Zpower by lia. apply bpow_lt. lia.
Qed.

Theorem w_wider f l h l2 h2 : within f l h -> l2 <= l -> h <= h2 -> within f l2 h2.
Proof. intros [F [A B]] L H. apply IZR_le in L, H. split; auto; lra. Qed.

Theorem w_u32 k : 0 <= k <= 4294967295 -> within (from_spec k) k k.
Proof.
  intros K. unfold within, from_spec, of_Z, val.
  pose proof (binary_normalize_correct 53 1024 p0 pe mode_NE k 0 false) as C; cbv zeta in C.
  replace (F2R (Float radix2 k 0)) with (IZR k) in C by (unfold F2R; simpl; ring).
  assert (E : exact k) by (left; lia).
  rewrite (rnd_small (IZR k) k k E E) in C by (split; apply Rle_refl).
  destruct C as [C [F _]]. rewrite C. split; auto. apply rnd_bounds; auto; split; apply Rle_refl.
Qed.

Theorem w_add a b l h l2 h2 : within a l h -> within b l2 h2 -> exact (l + l2) -> exact (h + h2) -> within (add a b) (l + l2) (h + h2).
Proof.
  intros [Fa Ba] [Fb Bb] X Y. unfold val in *.
  assert (H : (IZR (l + l2) <= B2R a + B2R b <= IZR (h + h2))%R) by (rewrite !plus_IZR; lra).
  pose proof (Bplus_correct 53 1024 p0 pe mode_NE a b Fa Fb) as C.
  rewrite (rnd_small _ _ _ X Y H) in C. destruct C as [C [F _]].
  split; auto. unfold val, add. rewrite C. apply rnd_bounds; auto.
Qed.
Theorem w_sub a b l h l2 h2 : within a l h -> within b l2 h2 -> exact (l - h2) -> exact (h - l2) -> within (sub a b) (l - h2) (h - l2).
Proof.
  intros [Fa Ba] [Fb Bb] X Y. unfold val in *.
  assert (H : (IZR (l - h2) <= B2R a - B2R b <= IZR (h - l2))%R) by (rewrite !minus_IZR; lra).
  pose proof (Bminus_correct 53 1024 p0 pe mode_NE a b Fa Fb) as C.
  rewrite (rnd_small _ _ _ X Y H) in C. destruct C as [C [F _]].
  split; auto. unfold val, sub. rewrite C. apply rnd_bounds; auto.
Qed.
Lemma mul_within a b l h : is_finite a = true -> is_finite b = true -> exact l -> exact h -> (IZR l <= B2R a * B2R b <= IZR h)%R -> within (mul a b) l h.
Proof.
  intros Fa Fb X Y H. pose proof (Bmult_correct 53 1024 p0 pe mode_NE a b) as C.
  rewrite (rnd_small _ _ _ X Y H) in C. destruct C as [C [F _]].
  split; [unfold mul; rewrite F, Fa, Fb; auto|]. unfold val, mul. rewrite C. apply rnd_bounds; auto.
Qed.
Theorem w_mul a b l h l2 h2 : within a l h -> within b l2 h2 -> 0 <= l -> 0 <= l2 -> exact (l * l2) -> exact (h * h2) -> within (mul a b) (l * l2) (h * h2).
Proof.
  intros [Fa Ba] [Fb Bb] L L2 X Y. unfold val in *. apply IZR_le in L, L2.
  apply mul_within; auto. rewrite !mult_IZR. split; apply Rmult_le_compat; lra.
Qed.
Theorem w_square a m s : within a (- m) m -> m * m <= s -> exact s -> within (mul a a) 0 s.
Proof.
  intros [Fa Ba] M X. unfold val in *. apply IZR_le in M. rewrite mult_IZR in M. rewrite opp_IZR in Ba.
  apply mul_within; auto. { left; lia. } split; [apply Rle_0_sqr|].
  apply Rle_trans with (2 := M). apply (Rsqr_le_abs_1 (B2R a) (IZR m)).
  apply Rle_trans with (IZR m); [apply Rabs_le; lra | apply Rle_abs].
Qed.
Theorem w_div a b l h l2 h2 q r : within a l h -> within b l2 h2 -> 0 <= l -> 0 < l2 -> q * h2 <= l -> h <= r * l2 -> 0 <= q -> exact q -> exact r -> within (div a b) q r.
Proof.
  intros [Fa Ba] [Fb Bb] L L2 Q R' Q0 X Y. unfold val in *.
  apply IZR_le in L, Q, R', Q0. apply IZR_lt in L2. rewrite mult_IZR in Q, R'.
  assert (N : B2R b <> 0%R) by lra.
  assert (H : (IZR q <= B2R a / B2R b <= IZR r)%R).
  { assert (P : (0 < B2R b)%R) by lra. split.
    - apply Rmult_le_reg_r with (B2R b); auto. unfold Rdiv. rewrite Rmult_assoc, Rinv_l, Rmult_1_r by auto.
      apply Rle_trans with (IZR q * IZR h2)%R; [apply Rmult_le_compat_l; lra | lra].
    - apply Rmult_le_reg_r with (B2R b); auto. unfold Rdiv. rewrite Rmult_assoc, Rinv_l, Rmult_1_r by auto.
      assert (0 <= IZR r)%R. { apply Rmult_le_reg_r with (IZR l2); auto. lra. }
      apply Rle_trans with (IZR r * IZR l2)%R; [lra | apply Rmult_le_compat_l; lra]. }
  pose proof (Bdiv_correct 53 1024 p0 pe mode_NE a b N) as C.
  rewrite (rnd_small _ _ _ X Y H) in C. destruct C as [C [F _]].
  split; [unfold div; rewrite F; auto|]. unfold val, div. rewrite C. apply rnd_bounds; auto.
Qed.
Theorem w_sqrt a m s : within a 0 s -> 0 <= m -> s <= m * m -> exact m -> within (root a) 0 m.
Proof.
  intros [Fa Ba] M S X. unfold val in *. apply IZR_le in M, S. rewrite mult_IZR in S.
  destruct (Bsqrt_correct 53 1024 p0 pe mode_NE a) as [C [F _]].
  split.
  - unfold root. rewrite F. destruct a as [s0|s0| |s0 m0 e0 b0]; simpl in *; auto; try discriminate.
    destruct s0; auto. exfalso. simpl in Ba. assert (F2R (Float radix2 (Z.neg m0) e0) < 0)%R by (apply F2R_lt_0; reflexivity). simpl in H. lra.
  - unfold val, root. rewrite C. apply (rnd_bounds _ 0 m); auto. { left; lia. }
    split; [apply sqrt_ge_0|]. rewrite <- (sqrt_square (IZR m)) by auto. apply sqrt_le_1_alt. lra.
Qed.
Lemma nearest_le x h : (x <= IZR h)%R -> ZnearestA x <= h.
Proof.
  intros H. pose proof (valid_rnd_N (Zle_bool 0)) as V.
  rewrite <- (@Zrnd_IZR _ V h). apply (@Zrnd_le _ V). exact H.
Qed.
Theorem w_cast a l h : within a l h -> 0 <= h -> 0 <= f64_to_u32_rounded a <= 4294967295 /\ f64_to_u32_rounded a <= h.
Proof.
  intros [Fa Ba] H. pose proof (nearest_le _ _ (proj2 Ba)) as N. unfold f64_to_u32_rounded.
  destruct a; try discriminate Fa; lia.
Qed.
Lemma lit m e l h : Z.abs m < 9007199254740992 -> -1074 <= e < 900 -> (IZR l <= F2R (Float radix2 m e) <= IZR h)%R -> exact l -> exact h -> within (of_Z m e) l h.
Proof.
  intros M E H X Y. unfold within, of_Z, val.
  pose proof (binary_normalize_correct 53 1024 p0 pe mode_NE m e false) as C; cbv zeta in C.
  rewrite (rnd_small _ l h X Y H) in C. destruct C as [C [F _]]. rewrite C. split; auto. apply rnd_bounds; auto.
Qed.
Ltac lits := apply lit; [lia | lia | unfold F2R; simpl; lra | left; lia | left; lia].
(* 0, 1, 2, 7 * 2^-1, 4, 7 *)
Theorem w_literals : within (of_Z 0 0) 0 0 /\ within (of_Z 1 0) 1 1 /\ within (of_Z 2 0) 2 2 /\ within (of_Z 7 (-1)) 3 4 /\ within (of_Z 4 0) 4 4 /\ within (of_Z 7 0) 7 7.
Proof. split; [lits|]. split; [lits|]. split; [lits|]. split; [lits|]. split; lits. Qed.

(* u8 to f64 is exact, so a brighter pixel stays above whatever number a darker one is above *)
Theorem f64_from_u8 a c m : 0 <= a <= 255 -> 0 <= c <= 255 -> a <= c -> above (from_spec a) m -> above (from_spec c) m.
Proof.
  intros A C' L. unfold above.
  destruct (w_u32 a ltac:(lia)) as [Fa Va]. destruct (w_u32 c ltac:(lia)) as [Fc Vc]. unfold val in *.
  apply IZR_le in L.
  destruct (is_finite m) eqn:Fm.
  - rewrite !Bcompare_correct by auto. intros H. inversion H as [H1]. f_equal. rewrite ?H1. apply Rcompare_Gt. apply Rcompare_Gt_inv in H1. lra.
  - intros H. destruct m as [s|s| |]; try discriminate Fm.
    + destruct (from_spec a) as [|sa| |]; try discriminate Fa; destruct (from_spec c) as [|sc| |]; try discriminate Fc; destruct s; simpl in *; auto; try discriminate H.
    + destruct (from_spec a); discriminate H.
Qed.
