(*@vc
prop C11
doc the decimal representation the proofs of C11 divide by: every 64-bit value has digits D (0..9, from place 20 on zero) with W(i) = 10 W(i+1) + D(i), W(0) the value, each W(i+1) at most (2^64-1)/10; for every such D and W quotient and remainder of W(i) by 10 are W(i+1) and D(i), by 100 W(i+2) and D(i) + 10 D(i+1), and the digits are determined by the value
@*)
Require Import ZArith Lia.
Open Scope Z_scope.

Definition rep (D W : nat -> Z) := forall i, 0 <= D i <= 9 /\ W i = 10 * W (S i) + D i.

Theorem quotient_10 : forall D W, rep D W -> forall i, W i / 10 = W (S i).
Proof. intros D W H i. destruct (H i) as [b e]. symmetry. apply Z.div_unique with (D i); lia. Qed.
Theorem remainder_10 : forall D W, rep D W -> forall i, W i mod 10 = D i.
Proof. intros D W H i. destruct (H i) as [b e]. symmetry. apply Z.mod_unique with (W (S i)); lia. Qed.
Theorem quotient_100 : forall D W, rep D W -> forall i, W i / 100 = W (S (S i)).
Proof. intros D W H i. destruct (H i) as [b e]. destruct (H (S i)) as [b' e']. symmetry. apply Z.div_unique with (D i + 10 * D (S i)); lia. Qed.
Theorem remainder_100 : forall D W, rep D W -> forall i, W i mod 100 = D i + 10 * D (S i).
Proof. intros D W H i. destruct (H i) as [b e]. destruct (H (S i)) as [b' e']. symmetry. apply Z.mod_unique with (W (S (S i))); lia. Qed.

Theorem digits_unique : forall D W D' W', rep D W -> rep D' W' -> W 0%nat = W' 0%nat -> forall i, W i = W' i /\ D i = D' i.
Proof.
  intros D W D' W' H H' e i. assert (q : W i = W' i).
  { induction i as [|i IH]; [exact e |]. rewrite <- (quotient_10 D W H i), <- (quotient_10 D' W' H' i), IH. reflexivity. }
  split; [exact q |]. rewrite <- (remainder_10 D W H i), <- (remainder_10 D' W' H' i), q. reflexivity.
Qed.

Theorem digits_exist : forall x, 0 <= x < 2 ^ 64 -> exists D W, rep D W /\ W 0%nat = x
  /\ (forall i, (20 <= i)%nat -> D i = 0 /\ W i = 0) /\ (forall i, 0 <= W (S i) <= (2 ^ 64 - 1) / 10).
Proof.
  intros x H. pose (W := fun i => x / 10 ^ Z.of_nat i). pose (D := fun i => W i mod 10).
  assert (P : forall i, 0 < 10 ^ Z.of_nat i) by (intro i; apply Z.pow_pos_nonneg; lia).
  assert (S10 : forall i, W (S i) = W i / 10).
  { intro i. unfold W. rewrite Nat2Z.inj_succ, Z.pow_succ_r by lia. rewrite Z.div_div by (specialize (P i); lia). f_equal. lia. }
  assert (N : forall i, 0 <= W i <= x).
  { intro i. unfold W. specialize (P i). split; [apply Z.div_pos; lia |]. apply Z.div_le_upper_bound; [lia |]. nia. }
  exists D, W. split; [| split; [| split]].
  - intro i. unfold D. pose proof (Z.mod_pos_bound (W i) 10). rewrite S10. pose proof (Z.div_mod (W i) 10). lia.
  - unfold W. simpl. apply Z.div_1_r.
  - intros i L. assert (Z0 : W i = 0).
    { unfold W. apply Z.div_small. split; [lia |]. apply Z.lt_le_trans with (10 ^ 20).
      - destruct H as [_ H]. apply Z.lt_trans with (2 ^ 64); [exact H | reflexivity].
      - apply Z.pow_le_mono_r; lia. }
    split; [unfold D; rewrite Z0; reflexivity | exact Z0].
  - intro i. split; [apply N |]. rewrite S10. apply Z.div_le_mono; [lia |]. specialize (N i). lia.
Qed.

(* the two digits written at a time: a value below 100 given as a pair of digits is that pair *)
Theorem pair : forall lo hi, 0 <= lo <= 9 -> 0 <= hi <= 9 -> (lo + 10 * hi) / 10 = hi /\ (lo + 10 * hi) mod 10 = lo.
Proof. intros lo hi a b. split; symmetry; [apply Z.div_unique with lo | apply Z.mod_unique with hi]; lia. Qed.
