(* Proofs, in Rocq with Flocq, of the facts about binary32 arithmetic that contracts/00_float.vrs
   marks [flocq].  float_axioms.py generates the statements from the axioms' text and checks
   them against the lemmas below (same names). *)
From Flocq Require Import Core BinarySingleNaN Relative Plus_error.
From Coq Require Import Reals Lra Lia ZArith.
Open Scope R_scope.
Definition prec := 24%Z.
Definition emax := 128%Z.
#[local] Instance Hprec : Prec_gt_0 prec := eq_refl.
#[local] Instance Hmax : Prec_lt_emax prec emax := eq_refl.
Definition f32 := binary_float prec emax.
Definition fadd (a b : f32) : f32 := Bplus mode_NE a b.
Definition fsub (a b : f32) : f32 := Bminus mode_NE a b.
Definition fmul (a b : f32) : f32 := Bmult mode_NE a b.
Definition fdiv (a b : f32) : f32 := Bdiv mode_NE a b.
Definition fgt (a b : f32) : bool := Bltb b a.
Definition feq (a b : f32) : bool := Beqb a b.
Definition fnan (a : f32) : bool := is_nan a.
Definition ffinite (a : f32) : bool := is_finite a.
Definition rv (a : f32) : R := B2R a.
Definition c0 : f32 := B754_zero false.
Definition c1 : f32 := Bone.
Definition funit (x : f32) : Prop := ~ fnan x = true /\ ~ fgt c0 x = true /\ ~ fgt x c1 = true.
Notation emin := (-149)%Z.
Notation fexp := (FLT_exp emin prec).
Notation rnd := (round radix2 fexp (round_mode mode_NE)).

Lemma sf_inf : forall (x : f32) s, B2SF x = binary_overflow prec emax mode_NE s -> x = B754_infinity s.
Proof. intros x s H. destruct x; simpl in H; try discriminate. now injection H as ->. Qed.
Lemma rnd_le : forall x y, x <= y -> rnd x <= rnd y.
Proof. intros; apply round_le; auto; [apply FLT_exp_valid; reflexivity | apply valid_rnd_N]. Qed.
Lemma rnd_B2R : forall x : f32, rnd (B2R x) = B2R x.
Proof. intros; apply round_generic; [apply valid_rnd_N | apply generic_format_B2R]. Qed.
Lemma rnd_0 : rnd 0 = 0.
Proof. apply round_0, valid_rnd_N. Qed.
Lemma Bone1 : B2R c1 = 1. Proof. apply Bone_correct. Qed.
Lemma rnd_1 : rnd 1 = 1.
Proof. rewrite <- Bone1 at 1. rewrite rnd_B2R. apply Bone1. Qed.
Lemma fgt_fin : forall a b : f32, is_finite a = true -> is_finite b = true -> (fgt a b = true <-> B2R b < B2R a).
Proof.
  intros a b Ha Hb. unfold fgt. rewrite Bltb_correct by assumption.
  split; intro H. destruct (Rlt_bool_spec (B2R b) (B2R a)); [assumption|discriminate]. now apply Rlt_bool_true.
Qed.
Lemma fgt_nfin : forall a b : f32, is_finite a = true -> is_finite b = true -> (fgt a b = false <-> B2R a <= B2R b).
Proof.
  intros a b Ha Hb. generalize (fgt_fin a b Ha Hb). destruct (fgt a b); intros [H1 H2]; split; intro H; try discriminate; try reflexivity.
  specialize (H1 eq_refl); lra. destruct (Rle_or_lt (B2R a) (B2R b)); auto. specialize (H2 H0). discriminate.
Qed.
Lemma unit_fin : forall x : f32, funit x -> is_finite x = true /\ 0 <= B2R x <= 1.
Proof.
  intros x (Hn & Hl & Hh).
  assert (F: is_finite x = true).
  { destruct x as [s|s| |s m e H]; try reflexivity; exfalso.
    - destruct s; [apply Hl | apply Hh]; reflexivity.
    - apply Hn; reflexivity. }
  split; [assumption|].
  apply Bool.not_true_is_false in Hl, Hh.
  apply fgt_nfin in Hl; [|reflexivity|assumption]. apply fgt_nfin in Hh; [|assumption|apply is_finite_Bone].
  rewrite Bone1 in Hh. simpl in Hl. lra.
Qed.
(* a number at least one: finite or +infinity *)
Lemma ge1 : forall s : f32, ~ fnan s = true -> ~ fgt c1 s = true -> (is_finite s = true /\ 1 <= B2R s) \/ s = B754_infinity false.
Proof.
  intros s Hn H. destruct (is_finite s) eqn:F.
  - left; split; auto. apply Bool.not_true_is_false in H. apply fgt_nfin in H; [|apply is_finite_Bone|assumption]. now rewrite Bone1 in H.
  - right. destruct s as [b|b| |b m e K]; try discriminate.
    + destruct b; [exfalso; apply H; reflexivity | reflexivity].
    + exfalso; apply Hn; reflexivity.
Qed.
(* the value of a difference *)
Lemma sub_cases : forall x m : f32, is_finite x = true -> is_finite m = true ->
  (is_finite (fsub x m) = true /\ B2R (fsub x m) = rnd (B2R x - B2R m)) \/
  (fsub x m = B754_infinity false /\ bpow radix2 emax <= rnd (B2R x - B2R m)) \/
  (fsub x m = B754_infinity true /\ rnd (B2R x - B2R m) <= - bpow radix2 emax).
Proof.
  intros x m Hx Hm. generalize (Bminus_correct prec emax _ _ mode_NE x m Hx Hm). unfold fsub.
  change (SpecFloat.fexp prec emax) with fexp.
  destruct (Rlt_bool_spec (Rabs (rnd (B2R x - B2R m))) (bpow radix2 emax)) as [H|H].
  - intros (H1 & H2 & _). left; auto.
  - intros (H1 & H2). right. apply sf_inf in H1.
    assert (S : forall z : f32, (Bsign z = true -> B2R z <= 0) /\ (Bsign z = false -> 0 <= B2R z)).
    { intro z. destruct z as [s|s| |s q e K]; simpl; try (split; intros; lra).
      split; intro E; subst s; simpl; [apply F2R_le_0 | apply F2R_ge_0]; simpl; lia. }
    destruct (S x) as [Sx1 Sx2], (S m) as [Sm1 Sm2].
    destruct (Bsign x) eqn:E; rewrite H1.
    + right; split; auto. symmetry in H2; apply Bool.negb_true_iff in H2.
      assert (rnd (B2R x - B2R m) <= 0) by (rewrite <- rnd_0; apply rnd_le; specialize (Sx1 eq_refl); specialize (Sm2 H2); lra).
      rewrite Rabs_left1 in H; auto; lra.
    + left; split; auto. symmetry in H2; apply Bool.negb_false_iff in H2.
      assert (0 <= rnd (B2R x - B2R m)) by (rewrite <- rnd_0; apply rnd_le; specialize (Sx2 eq_refl); specialize (Sm1 H2); lra).
      rewrite Rabs_right in H; lra.
Qed.
Lemma bp : 0 < bpow radix2 emax. Proof. apply bpow_gt_0. Qed.
Lemma sub_mono : forall x y m : f32, ffinite x = true -> ffinite y = true -> ffinite m = true -> ~ fgt x y = true ->
  ~ fgt (fsub x m) (fsub y m) = true.
Proof.
  unfold ffinite. intros x y m Hx Hy Hm H. apply Bool.not_true_is_false in H. apply fgt_nfin in H; auto.
  assert (L : rnd (B2R x - B2R m) <= rnd (B2R y - B2R m)) by (apply rnd_le; lra).
  generalize bp; intro P.
  destruct (sub_cases x m Hx Hm) as [[F E]|[[E K]|[E K]]], (sub_cases y m Hy Hm) as [[F' E']|[[E' K']|[E' K']]].
  - rewrite fgt_fin by assumption. lra.
  - rewrite E'. unfold fgt, Bltb. destruct (fsub x m); simpl; easy.
  - exfalso. assert (A := abs_B2R_lt_emax prec emax (fsub x m)). rewrite E in A. apply Rabs_lt_inv in A. lra.
  - exfalso. assert (A := abs_B2R_lt_emax prec emax (fsub y m)). rewrite E' in A. apply Rabs_lt_inv in A. lra.
  - rewrite E, E'. easy.
  - exfalso; lra.
  - rewrite E. unfold fgt, Bltb. destruct (fsub y m) as [[]|[]| |[] q e B]; simpl; easy.
  - rewrite E, E'. easy.
  - rewrite E, E'. easy.
Qed.
(* quotient of a number in [0,1] by a finite number at least one *)
Lemma div_fin : forall a s : f32, is_finite a = true -> 0 <= B2R a <= 1 -> is_finite s = true -> 1 <= B2R s ->
  is_finite (fdiv a s) = true /\ B2R (fdiv a s) = rnd (B2R a / B2R s).
Proof.
  intros a s Ha Va Hs Vs.
  assert (Q : 0 <= B2R a / B2R s <= 1).
  { split. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat; lra.
    apply Rmult_le_reg_r with (B2R s); [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. lra. }
  generalize (Bdiv_correct prec emax _ _ mode_NE a s ltac:(lra)). unfold fdiv. change (SpecFloat.fexp prec emax) with fexp.
  rewrite Rlt_bool_true.
  - intros (H1 & H2 & _). rewrite H1, H2. auto.
  - apply Rle_lt_trans with 1.
    + assert (0 <= rnd (B2R a / B2R s)) by (rewrite <- rnd_0; apply rnd_le; lra).
      assert (rnd (B2R a / B2R s) <= 1) by (rewrite <- rnd_1; apply rnd_le; lra).
      rewrite Rabs_right; lra.
    + change 1 with (bpow radix2 0). apply bpow_lt. reflexivity.
Qed.
Lemma div_inf : forall a : f32, is_finite a = true -> B2R (fdiv a (B754_infinity false)) = 0 /\ is_finite (fdiv a (B754_infinity false)) = true.
Proof. intros [s|s| |s m e H] F; try discriminate; split; reflexivity. Qed.
Lemma div_mono : forall a b s : f32, funit a -> funit b -> ~ fgt a b = true -> ~ fnan s = true -> ~ fgt c1 s = true ->
  ~ fgt (fdiv a s) (fdiv b s) = true.
Proof.
  intros a b s Ua Ub H Hn H1. destruct (unit_fin a Ua) as [Fa Va], (unit_fin b Ub) as [Fb Vb].
  apply Bool.not_true_is_false in H. apply fgt_nfin in H; auto.
  destruct (ge1 s Hn H1) as [[Fs Vs]| ->].
  - destruct (div_fin a s), (div_fin b s); auto. rewrite fgt_fin by assumption.
    assert (rnd (B2R a / B2R s) <= rnd (B2R b / B2R s)).
    { apply rnd_le. apply Rmult_le_compat_r; auto. apply Rlt_le, Rinv_0_lt_compat; lra. }
    lra.
  - destruct (div_inf a Fa), (div_inf b Fb). rewrite fgt_fin by assumption. lra.
Qed.
(* values *)
Lemma rv_order : forall a b : f32, ffinite a = true -> ffinite b = true -> (fgt a b = true <-> rv a > rv b).
Proof. intros. rewrite fgt_fin by assumption. unfold rv; split; intro; lra. Qed.
Lemma rv_one : rv c0 = 0 /\ rv c1 = 1. Proof. split. reflexivity. apply Bone1. Qed.
Definition u : R := / 2 * bpow radix2 (- prec + 1).
Lemma u_val : u = 1 / 16777216. Proof. unfold u, prec. simpl. lra. Qed.
Lemma add_err_abs : forall a b : f32, ffinite a = true -> ffinite b = true -> ffinite (fadd a b) = true -> 
  Rabs (rv (fadd a b) - (rv a + rv b)) <= u * Rabs (rv (fadd a b)).
Proof.
  unfold ffinite, rv. intros a b Ha Hb Hc.
  generalize (Bplus_correct prec emax _ _ mode_NE a b Ha Hb). unfold fadd. change (SpecFloat.fexp prec emax) with fexp.
  destruct (Rlt_bool_spec (Rabs (rnd (B2R a + B2R b))) (bpow radix2 emax)) as [H|H].
  2: { intros (H1 & _). apply sf_inf in H1. unfold fadd in Hc. rewrite H1 in Hc. discriminate. }
  intros (-> & _ & _).
  destruct (FLT_plus_error_N_round_ex radix2 emin prec (fun x => negb (Z.even x)) (B2R a) (B2R b)) as (eps & He & E).
  apply generic_format_B2R. apply generic_format_B2R.
  change (round radix2 fexp ZnearestE (B2R a + B2R b)) with (rnd (B2R a + B2R b)) in E.
  rewrite E at 2.
  set (r := rnd (B2R a + B2R b)) in *.
  replace (r - r * (1 + eps)) with (- eps * r) by ring.
  rewrite Rabs_mult, Rabs_Ropp. apply Rmult_le_compat_r. apply Rabs_pos.
  eapply Rle_trans; [exact He|]. unfold u, u_ro. lra.
Qed.
Lemma div_err_abs : forall a s : f32, funit a -> ffinite s = true -> ~ fgt c1 s = true ->
  Rabs (rv (fdiv a s) - rv a / rv s) <= u.
Proof.
  unfold ffinite, rv. intros a s Ua Fs H. destruct (unit_fin a Ua) as [Fa Va].
  apply Bool.not_true_is_false in H. apply fgt_nfin in H; [|apply is_finite_Bone|assumption]. rewrite Bone1 in H.
  destruct (div_fin a s) as [_ ->]; auto.
  assert (Q : 0 <= B2R a / B2R s <= 1).
  { split. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat; lra.
    apply Rmult_le_reg_r with (B2R s); [lra|]. unfold Rdiv. rewrite Rmult_assoc, Rinv_l by lra. lra. }
  assert (V : Valid_exp fexp) by (apply FLT_exp_valid; reflexivity).
  eapply Rle_trans. apply error_le_half_ulp; exact V.
  unfold u. apply Rmult_le_compat_l; [lra|].
  replace (bpow radix2 (- prec + 1)) with (ulp radix2 fexp 1).
  - apply ulp_le; auto. apply FLT_exp_monotone. rewrite !Rabs_right; lra.
  - rewrite ulp_neq_0 by lra. unfold cexp. change 1 with (bpow radix2 0). rewrite mag_bpow. reflexivity.
Qed.
Lemma add_err : forall a b : f32, ffinite a = true -> ffinite b = true -> ffinite (fadd a b) = true -> ~ fgt c0 (fadd a b) = true ->
  (- (1 / 16777216) * rv (fadd a b) <= rv (fadd a b) - (rv a + rv b)) /\ (rv (fadd a b) - (rv a + rv b) <= 1 / 16777216 * rv (fadd a b)).
Proof.
  intros a b Ha Hb Hc H. assert (P := add_err_abs a b Ha Hb Hc).
  apply Bool.not_true_is_false in H. apply fgt_nfin in H; [|reflexivity|assumption]. simpl in H. unfold rv in *.
  rewrite (Rabs_right (B2R (fadd a b))), u_val in P by lra. apply Rabs_le_inv in P. lra.
Qed.
Lemma div_err : forall a s : f32, funit a -> ffinite s = true -> ~ fgt c1 s = true ->
  (- (1 / 16777216) <= rv (fdiv a s) - rv a / rv s) /\ (rv (fdiv a s) - rv a / rv s <= 1 / 16777216).
Proof. intros a s Ha Hs H. assert (P := div_err_abs a s Ha Hs H). rewrite u_val in P. apply Rabs_le_inv in P. lra. Qed.
