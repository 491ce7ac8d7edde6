-------------------------------- MODULE scaling --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
N == 12

VARIABLE
  (*
    @type: Int;
  *)
  p

VARIABLE
  (*
    @type: Int;
  *)
  q

VARIABLE
  (*
    @type: Int;
  *)
  num

VARIABLE
  (*
    @type: Int;
  *)
  den

VARIABLE
  (*
    @type: Int;
  *)
  e

VARIABLE
  (*
    @type: Int;
  *)
  steps

(*
  @type: ((Int) => Int);
*)
pow10(k_1185) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(acc_1183, i_1183) ==
    IF i_1183 <= k_1185 THEN acc_1183 * 10 ELSE acc_1183
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 1, (1 .. 6))

(*
  @type: ((Int) => Int);
*)
mag(i_1339) == IF i_1339 < 0 THEN -i_1339 ELSE i_1339

(*
  @type: (() => Bool);
*)
step ==
  IF num < den
  THEN p' := p
    /\ q' := q
    /\ num' := (num * 10)
    /\ den' := den
    /\ e' := (e - 1)
    /\ steps' := (steps + 1)
  ELSE IF num > 10 * den
  THEN p' := p
    /\ q' := q
    /\ num' := num
    /\ den' := (den * 10)
    /\ e' := (e + 1)
    /\ steps' := (steps + 1)
  ELSE p' := p
    /\ q' := q
    /\ num' := num
    /\ den' := den
    /\ e' := e
    /\ steps' := steps

(*
  @type: (() => Bool);
*)
right == (num >= den /\ num <= 10 * den) \/ steps < 6

(*
  @type: (() => Bool);
*)
invariant_ ==
  IF e >= 0
  THEN (num * q) * pow10(e) = p * den
  ELSE num * q = (p * den) * pow10((-e))

(*
  @type: (() => Bool);
*)
soon == steps <= 6 /\ steps = mag(e)

(*
  @type: (() => Bool);
*)
init ==
  \E a \in 1 .. N:
    \E b \in 1 .. N:
      \E i \in 0 .. 3:
        \E up \in { TRUE, FALSE }:
          LET (*@type: (() => Int); *) x == IF up THEN a * pow10(i) ELSE a IN
          LET (*@type: (() => Int); *) y == IF up THEN b ELSE b * pow10(i) IN
          p = x
            /\ q = y
            /\ num = x
            /\ den = y
            /\ e = 0
            /\ steps = 0

(*
  @type: (() => Bool);
*)
correct == (invariant_ /\ right) /\ soon

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
