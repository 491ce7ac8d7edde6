------------------------------- MODULE squaring -------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
M == 256

(*
  @type: (() => Int);
*)
N == 31

VARIABLE
  (*
    @type: Int;
  *)
  base

VARIABLE
  (*
    @type: Int;
  *)
  value

VARIABLE
  (*
    @type: Int;
  *)
  e

VARIABLE
  (*
    @type: Int;
  *)
  x

VARIABLE
  (*
    @type: Int;
  *)
  n

VARIABLE
  (*
    @type: Bool;
  *)
  done

(*
  @type: ((Int, Int) => Int);
*)
power(v_279, k_279) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(acc_277, i_277) ==
    IF i_277 <= k_279 THEN acc_277 * v_279 % M ELSE acc_277
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 1, (1 .. N))

(*
  @type: (() => Bool);
*)
step ==
  (e > 1
      /\ base' := (base * base % M)
      /\ value' := (IF e % 2 = 1 THEN value * base % M ELSE value)
      /\ e' := (e \div 2)
      /\ x' := x
      /\ n' := n
      /\ done' := FALSE)
    \/ (e <= 1
      /\ value' := (IF e = 1 THEN value * base % M ELSE value)
      /\ e' := 0
      /\ base' := base
      /\ x' := x
      /\ n' := n
      /\ done' := TRUE)

(*
  @type: (() => Bool);
*)
init ==
  \E p \in 0 .. M - 1:
    \E q \in 0 .. N: x = p/\ n = q/\ base = p/\ value = 1/\ e = q/\ done = FALSE

(*
  @type: (() => Bool);
*)
invariant_ == value * power(base, e) % M = power(x, n)

(*
  @type: (() => Bool);
*)
right == done => value = power(x, n)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
correct == invariant_ /\ right

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
