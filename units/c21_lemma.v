(*@vc
prop C21
doc the product of a count and a size fits a limit exactly when the size is at most the limit divided by the count; so arena_calloc, which asks the latter, refuses exactly the requests whose product does not fit, and its product does not overflow
@*)
Require Import ZArith Lia.
Open Scope Z_scope.
Definition K := (2 ^ 63 - 1) / 2.
Theorem fits : forall c n, 0 < c -> 0 <= n -> (n <= K / c <-> n * c <= K).
Proof.
  intros c n Hc Hn. split; intro H.
  - pose proof (Z.mul_div_le K c Hc). nia.
  - apply Z.div_le_lower_bound; lia.
Qed.
Theorem no_overflow : forall c n, 0 < c -> 0 <= n -> n <= K / c -> 0 <= c * n < 2 ^ 63.
Proof.
  intros c n Hc Hn H. apply (fits c n Hc Hn) in H. unfold K in H. change ((2 ^ 63 - 1) / 2) with 4611686018427387903 in H. nia.
Qed.
