-------------------------------- MODULE newton --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
F == 256

VARIABLE
  (*
    @type: Int;
  *)
  x

VARIABLE
  (*
    @type: Int;
  *)
  v

VARIABLE
  (*
    @type: Int;
  *)
  k

VARIABLE
  (*
    @type: Bool;
  *)
  done

(*
  @type: ((Int) => Int);
*)
mag(i_1063) == IF i_1063 < 0 THEN -i_1063 ELSE i_1063

(*
  @type: (() => Bool);
*)
init ==
  \E p \in 16 .. 4096:
    x = (p * F) \div 16
      /\ v = (p * F) \div 32
      /\ k = 0
      /\ done = FALSE

(*
  @type: ((Int, Int) => Int);
*)
better(X_1051, V_1051) == (V_1051 + (X_1051 * F) \div V_1051) \div 2

(*
  @type: (() => Bool);
*)
above == k >= 1 => (v + 2) * (v + 2) >= x * F

(*
  @type: (() => Bool);
*)
right == done => (v - 3) * (v - 3) <= x * F /\ (v + 3) * (v + 3) >= x * F

(*
  @type: (() => Bool);
*)
soon == k <= 14

(*
  @type: (() => Bool);
*)
correct == (above /\ right) /\ soon

(*
  @type: (() => Bool);
*)
step ==
  LET (*@type: (() => Int); *) w == better(x, v) IN
  x' := x
    /\ v' := (IF done THEN v ELSE w)
    /\ k' := (IF done THEN k ELSE k + 1)
    /\ done' := (done \/ mag((w - v)) <= 1)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
