(* Ring and uniqueness lemmas that connect the loop invariants of
   harness/emul.c to the mathematical quotient, remainder and product. *)
Require Import ZArith Lia.
Open Scope Z_scope.

(* ghost G = Q * D is preserved by the only two transitions of the loop *)
Lemma ghost_step : forall Q G D k, 0 <= k -> G = Q * D -> G + D * 2 ^ k = (Q + 2 ^ k) * D.
Proof. intros; subst; ring. Qed.

(* machine arithmetic does not wrap: Q stays below 2^32 whenever G <= N < 2^32 *)
Lemma quotient_fits : forall Q G D N, 0 <= Q -> 1 <= D -> G = Q * D -> G <= N -> N < 2 ^ 32 -> Q < 2 ^ 32.
Proof. intros; subst; nia. Qed.

(* at the exit of the loop: N = G + R, 0 <= R < D *)
Lemma division_unique : forall N D Q G R, 1 <= D -> G = Q * D -> N = G + R -> 0 <= R < D -> Q = N / D /\ R = N mod D.
Proof.
  intros N D Q G R HD HG HN HR.
  assert (H : N = D * Q + R) by (subst; ring).
  split; [ apply Z.div_unique with R | apply Z.mod_unique with Q ]; auto.
Qed.

(* C's signed division truncates: quotient and remainder of the magnitudes with
   the signs the tail applies *)
Lemma signed_quotient : forall a b, b <> 0 ->
  Z.quot a b = (if Bool.eqb (a <? 0) (b <? 0) then Z.abs a / Z.abs b else - (Z.abs a / Z.abs b)).
Proof.
  intros a b Hb. rewrite Z.quot_div by auto.
  destruct (Z.ltb_spec a 0), (Z.ltb_spec b 0); simpl.
  - rewrite (Z.sgn_neg a), (Z.sgn_neg b) by lia. ring.
  - assert (b > 0) by lia. rewrite (Z.sgn_neg a), (Z.sgn_pos b) by lia. ring.
  - destruct (Z.eq_dec a 0). { subst. unfold Z.sgn, Z.div, Z.div_eucl, Z.abs. destruct b; reflexivity. }
    rewrite (Z.sgn_pos a), (Z.sgn_neg b) by lia. ring.
  - destruct (Z.eq_dec a 0). { subst. unfold Z.sgn, Z.div, Z.div_eucl, Z.abs. destruct b; reflexivity. }
    assert (b > 0) by lia. rewrite (Z.sgn_pos a), (Z.sgn_pos b) by lia. ring.
Qed.
Lemma signed_remainder : forall a b, b <> 0 ->
  Z.rem a b = (if a <? 0 then - (Z.abs a mod Z.abs b) else Z.abs a mod Z.abs b).
Proof.
  intros a b Hb. rewrite Z.rem_mod by auto.
  destruct (Z.ltb_spec a 0).
  - rewrite (Z.sgn_neg a) by lia. ring.
  - destruct (Z.eq_dec a 0). { subst. unfold Z.sgn, Z.modulo, Z.div_eucl, Z.abs. destruct b; reflexivity. }
    rewrite (Z.sgn_pos a) by lia. ring.
Qed.

(* multiplication: G_k = A * (B mod 2^k); the recurrence of the loop *)
Lemma product_step : forall A B k, 0 <= k -> 0 <= B ->
  A * (B mod 2 ^ (k + 1)) = A * (B mod 2 ^ k) + (if Z.testbit B k then A * 2 ^ k else 0).
Proof.
  intros A B k Hk HB.
  assert (E : B mod 2 ^ (k + 1) = B mod 2 ^ k + (if Z.testbit B k then 2 ^ k else 0)).
  { rewrite Z.testbit_odd, Z.shiftr_div_pow2 by lia.
    rewrite Z.pow_add_r by lia. change (2 ^ 1) with 2.
    rewrite Z.rem_mul_r by lia.
    rewrite (Zmod_odd (B / 2 ^ k)). destruct (Z.odd (B / 2 ^ k)); ring. }
  rewrite E. destruct (Z.testbit B k); ring.
Qed.
(* exit: the remaining bits of B are all zero, or A << k is 0 modulo 2^32 *)
Lemma product_exit : forall A B k, 0 <= k -> 0 <= B -> (B / 2 ^ k = 0 \/ (A * 2 ^ k) mod 2 ^ 32 = 0) ->
  (A * (B mod 2 ^ k)) mod 2 ^ 32 = (A * B) mod 2 ^ 32.
Proof.
  intros A B k Hk HB [H | H].
  - assert (B = B mod 2 ^ k). { rewrite (Z.div_mod B (2 ^ k)) at 1 by lia. rewrite H. lia. }
    congruence.
  - assert (E : A * B = A * (B mod 2 ^ k) + (B / 2 ^ k) * (A * 2 ^ k)).
    { rewrite (Z.div_mod B (2 ^ k)) at 1 by lia. ring. }
    rewrite E. rewrite Z.add_mod by lia. rewrite (Z.mul_mod (B / 2 ^ k)) by lia. rewrite H.
    rewrite Z.mul_0_r, Z.mod_0_l, Z.add_0_r, Z.mod_mod by lia. reflexivity.
Qed.
Print Assumptions signed_quotient.
