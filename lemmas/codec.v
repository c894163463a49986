(* Lemma over the contracts of the index encoder / decoder (units/p_suite.c: ct_encode, ct_decode, ct_number_of_problems).
   I, F, D: numbers of instances, functions and dimensions.  Natural numbers stand for size_t values: all quantities below
   are at most I*F*D, so no machine wrap-around occurs as long as the number of problems is representable. *)
Require Import NArith Lia.
Open Scope N_scope.
Section codec.
Variables I F D : N.
Hypothesis HI : 0 < I.
Hypothesis HF : 0 < F.
Definition enc (f d i : N) := i + f * I + d * I * F.
Definition dec_i (p : N) := p mod I.
Definition dec_f (p : N) := (p / I) mod F.
Definition dec_d (p : N) := p / (I * F).

Lemma div_step : forall f d i, i < I -> (i + f * I + d * I * F) / I = f + d * F.
Proof.
  intros. replace (i + f * I + d * I * F) with (i + (f + d * F) * I) by ring.
  rewrite N.div_add by lia. rewrite N.div_small by assumption. reflexivity.
Qed.

Theorem dec_enc : forall f d i, f < F -> i < I -> dec_f (enc f d i) = f /\ dec_d (enc f d i) = d /\ dec_i (enc f d i) = i.
Proof.
  intros f d i Hf Hi. unfold dec_f, dec_d, dec_i, enc. repeat split.
  - rewrite div_step by assumption. rewrite N.mod_add by lia. apply N.mod_small; assumption.
  - rewrite <- N.div_div by lia. rewrite div_step by assumption. rewrite N.div_add by lia. rewrite N.div_small by assumption. reflexivity.
  - replace (i + f * I + d * I * F) with (i + (f + d * F) * I) by ring. rewrite N.mod_add by lia. apply N.mod_small; assumption.
Qed.

Theorem enc_range : forall f d i, f < F -> d < D -> i < I -> enc f d i < I * F * D.
Proof.
  intros f d i Hf Hd Hi. unfold enc.
  assert (i + f * I < I * F) by nia.
  assert (d * I * F + I * F <= I * F * D) by (replace (d * I * F + I * F) with ((I * F) * (d + 1)) by ring; apply N.mul_le_mono_l; lia).
  lia.
Qed.

Theorem enc_dec : forall p, enc (dec_f p) (dec_d p) (dec_i p) = p.
Proof.
  intros. unfold enc, dec_f, dec_d, dec_i. rewrite <- N.div_div by lia.
  pose proof (N.div_mod p I ltac:(lia)). pose proof (N.div_mod (p / I) F ltac:(lia)).
  set (q := p / I) in *. set (r := p mod I) in *. set (a := q / F) in *. set (b := q mod F) in *.
  rewrite H at 1. rewrite H0 at 1. ring_simplify. nia.
Qed.

Theorem dec_range : forall p, p < I * F * D -> dec_f p < F /\ dec_d p < D /\ dec_i p < I.
Proof.
  intros. unfold dec_f, dec_d, dec_i. repeat split; try (apply N.mod_lt; lia).
  apply N.div_lt_upper_bound; nia.
Qed.
End codec.
