(*@vc
prop C26
doc from the exact formula of c26_value to the error bound of the property, in real arithmetic with rounding to nearest even (Flocq): for every integer I of 64 bits and every fraction S of at most 18 digits with the sign of I, rnd (rnd I + rnd (rnd S * m)) is within 2^-51 relative of I + S / 10^k, m being the scale of k digits (the double c26_value compares with the table), k = 1 .. 18
@*)
Require Import ZArith Reals Psatz.
From Flocq Require Import Core Relative.
Open Scope R_scope.

(* IEEE double, rounding to nearest even; overflow is out of reach of these values *)
Definition rnd := round radix2 (FLT_exp (-1074) 53) ZnearestE.
Definition u := bpow radix2 (-53).

Lemma uv : u = / 9007199254740992. Proof. unfold u. simpl. reflexivity. Qed.
Lemma rel : forall x, bpow radix2 (-1022) <= Rabs x -> Rabs (rnd x - x) <= u * Rabs x.
Proof.
  intros x H. unfold rnd, u.
  replace (bpow radix2 (-53)) with (/2 * bpow radix2 (-53 + 1)).
  - apply relative_error_N_FLT; [reflexivity | exact H].
  - simpl. lra.
Qed.
Lemma rnd0 : rnd 0 = 0. Proof. apply round_0. apply valid_rnd_N. Qed.
Lemma rnd_opp : forall x, rnd (- x) = - rnd x. Proof. intros x. apply round_NE_opp. Qed.
Lemma small : bpow radix2 (-1022) <= / 1180591620717411303424.
Proof. replace (/ 1180591620717411303424) with (bpow radix2 (-70)) by (simpl; reflexivity). apply bpow_le. lia. Qed.
Lemma pos : forall x, x = 0 \/ / 1180591620717411303424 <= x -> (1 - u) * x <= rnd x <= (1 + u) * x.
Proof.
  intros x [-> | H]; [rewrite rnd0; lra |].
  assert (P : 0 <= x) by lra. pose proof (rel x) as Q. rewrite Rabs_pos_eq in Q by exact P.
  pose proof small. specialize (Q ltac:(lra)). apply Rabs_le_inv in Q. lra.
Qed.

(* the scale of k digits, as a multiple of a power of two, and 10^k *)
Definition scale (k : Z) (m t : R) := t = IZR (10 ^ k) /\ 1 <= t <= 1000000000000000000 /\ (1 - 3 / 4 * u) <= m * t <= (1 + 3 / 4 * u).

Lemma nonneg : forall k m t (I S : Z), scale k m t -> (0 <= I)%Z -> (0 <= S)%Z ->
  Rabs (rnd (rnd (IZR I) + rnd (rnd (IZR S) * m)) - (IZR I + IZR S / t)) <= 4 * u * Rabs (IZR I + IZR S / t).
Proof.
  intros k m t I S [_ [T D]] HI HS. rewrite uv in D. assert (E := uv).
  assert (M0 : 0 < m) by nra.
  assert (M1 : / 2000000000000000000 <= m) by nra.
  assert (Ci : IZR I = 0 \/ 1 <= IZR I).
  { destruct (Z.eq_dec I 0) as [-> | N]; [left; reflexivity | right; apply (IZR_le 1); lia]. }
  assert (Cs : IZR S = 0 \/ 1 <= IZR S).
  { destruct (Z.eq_dec S 0) as [-> | N]; [left; reflexivity | right; apply (IZR_le 1); lia]. }
  clear HI HS. revert Ci Cs. generalize (IZR I) as i, (IZR S) as s. intros i s Ci Cs.
  assert (A : (1 - u) * i <= rnd i <= (1 + u) * i) by (apply pos; lra).
  assert (B : (1 - u) * s <= rnd s <= (1 + u) * s) by (apply pos; lra).
  assert (C : (1 - u) * (rnd s * m) <= rnd (rnd s * m) <= (1 + u) * (rnd s * m)).
  { apply pos. destruct Cs as [-> | N]; [left; rewrite rnd0; ring | right]. rewrite E in B. nra. }
  set (p := rnd (rnd s * m)) in *. set (x := s / t).
  assert (X : s = x * t) by (unfold x; field; lra).
  assert (X0 : x = 0 \/ / 1000000000000000000 <= x).
  { destruct Cs as [Z | N]; [left; unfold x; rewrite Z; field; lra | right]. apply Rmult_le_reg_r with t; [lra |]. rewrite <- X. nra. }
  (* the fraction, rounded three times *)
  assert (F : (1 - u) * (1 - u) * (1 - 3 / 4 * u) * x <= p <= (1 + u) * (1 + u) * (1 + 3 / 4 * u) * x).
  { assert (G : (1 - u) * (x * (m * t)) <= rnd s * m <= (1 + u) * (x * (m * t))).
    { replace ((1 - u) * (x * (m * t))) with ((1 - u) * s * m) by (rewrite X; ring). replace ((1 + u) * (x * (m * t))) with ((1 + u) * s * m) by (rewrite X; ring).
      split; apply Rmult_le_compat_r; lra. }
    assert (H : (1 - 3 / 4 * u) * x <= x * (m * t) <= (1 + 3 / 4 * u) * x) by (rewrite E; split; nra).
    rewrite E in *. lra. }
  assert (W : (1 - u) * (rnd i + p) <= rnd (rnd i + p) <= (1 + u) * (rnd i + p)).
  { apply pos. rewrite E in A, F. destruct Ci as [Zi | Ni]; [destruct X0 as [Zx | Nx] |]; [left | right | right]; lra. }
  set (r := rnd (rnd i + p)) in *.
  rewrite (Rabs_pos_eq (i + x)) by lra. apply Rabs_le. rewrite E in *. lra.
Qed.

Theorem bound : forall k m t (I S : Z), scale k m t -> (0 <= I /\ 0 <= S \/ I <= 0 /\ S <= 0)%Z ->
  Rabs (rnd (rnd (IZR I) + rnd (rnd (IZR S) * m)) - (IZR I + IZR S / t)) <= bpow radix2 (-51) * Rabs (IZR I + IZR S / t).
Proof.
  intros k m t I S H [[P Q] | [P Q]]; replace (bpow radix2 (-51)) with (4 * u) by (rewrite uv; simpl; lra).
  - apply nonneg with k; assumption.
  - pose proof (nonneg k m t (- I) (- S) H ltac:(lia) ltac:(lia)) as N.
    rewrite !opp_IZR, !rnd_opp in N.
    replace (- rnd (IZR S) * m) with (- (rnd (IZR S) * m)) in N by ring. rewrite rnd_opp in N.
    replace (- rnd (IZR I) + - rnd (rnd (IZR S) * m)) with (- (rnd (IZR I) + rnd (rnd (IZR S) * m))) in N by ring. rewrite rnd_opp in N.
    replace (- IZR I + - IZR S / t) with (- (IZR I + IZR S / t)) in N by (destruct H as [_ [T _]]; field; lra).
    rewrite Rabs_Ropp in N.
    replace (- rnd (rnd (IZR I) + rnd (rnd (IZR S) * m)) - - (IZR I + IZR S / t)) with (- (rnd (rnd (IZR I) + rnd (rnd (IZR S) * m)) - (IZR I + IZR S / t))) in N by ring.
    rewrite Rabs_Ropp in N. exact N.
Qed.

(* 0x1.999999999999ap-4 *)
Lemma scale_1 : scale 1 (3602879701896397 / 36028797018963968) 10.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.47ae147ae147bp-7 *)
Lemma scale_2 : scale 2 (5764607523034235 / 576460752303423488) 100.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.0624dd2f1a9fcp-10 *)
Lemma scale_3 : scale 3 (1152921504606847 / 1152921504606846976) 1000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.a36e2eb1c432dp-14 *)
Lemma scale_4 : scale 4 (7378697629483821 / 73786976294838206464) 10000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.4f8b588e368f1p-17 *)
Lemma scale_5 : scale 5 (5902958103587057 / 590295810358705651712) 100000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.0c6f7a0b5ed8dp-20 *)
Lemma scale_6 : scale 6 (4722366482869645 / 4722366482869645213696) 1000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.ad7f29abcaf48p-24 *)
Lemma scale_7 : scale 7 (944473296573929 / 9444732965739290427392) 10000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.5798ee2308c3ap-27 *)
Lemma scale_8 : scale 8 (3022314549036573 / 302231454903657293676544) 100000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.12e0be826d695p-30 *)
Lemma scale_9 : scale 9 (4835703278458517 / 4835703278458516698824704) 1000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.b7cdfd9d7bdbbp-34 *)
Lemma scale_10 : scale 10 (7737125245533627 / 77371252455336267181195264) 10000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.5fd7fe1796495p-37 *)
Lemma scale_11 : scale 11 (6189700196426901 / 618970019642690137449562112) 100000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.19799812dea11p-40 *)
Lemma scale_12 : scale 12 (4951760157141521 / 4951760157141521099596496896) 1000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.c25c268497682p-44 *)
Lemma scale_13 : scale 13 (3961408125713217 / 39614081257132168796771975168) 10000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.6849b86a12b9bp-47 *)
Lemma scale_14 : scale 14 (6338253001141147 / 633825300114114700748351602688) 100000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.203af9ee75616p-50 *)
Lemma scale_15 : scale 15 (2535301200456459 / 2535301200456458802993406410752) 1000000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.cd2b297d889bcp-54 *)
Lemma scale_16 : scale 16 (2028240960365167 / 20282409603651670423947251286016) 10000000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.70ef54646d497p-57 *)
Lemma scale_17 : scale 17 (6490371073168535 / 649037107316853453566312041152512) 100000000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
(* 0x1.2725dd1d243acp-60 *)
Lemma scale_18 : scale 18 (1298074214633707 / 1298074214633706907132624082305024) 1000000000000000000.
Proof. unfold scale. rewrite uv. split; [reflexivity | split; lra]. Qed.
