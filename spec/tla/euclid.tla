-------------------------------- MODULE euclid --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Int;
  *)
  y

VARIABLE
  (*
    @type: Int;
  *)
  steps

(*
  @type: (() => Int);
*)
N == 120

VARIABLE
  (*
    @type: Int;
  *)
  a

VARIABLE
  (*
    @type: Int;
  *)
  b

VARIABLE
  (*
    @type: Int;
  *)
  x

(*
  @type: ((Int, Int) => Bool);
*)
divides(d_104, n_104) == n_104 = 0 \/ (d_104 > 0 /\ n_104 % d_104 = 0)

(*
  @type: (() => Bool);
*)
shallow == steps <= 11

(*
  @type: (() => Bool);
*)
step ==
  (b /= 0
      /\ a' := b
      /\ b' := (a % b)
      /\ x' := x
      /\ y' := y
      /\ steps' := (steps + 1))
    \/ (b = 0
      /\ a' := a
      /\ b' := b
      /\ x' := x
      /\ y' := y
      /\ steps' := steps)

(*
  @type: (() => Bool);
*)
sameDivisors ==
  \A d_125 \in 1 .. N:
    (divides(d_125, x) /\ divides(d_125, y))
      = (divides(d_125, a) /\ divides(d_125, b))

(*
  @type: (() => Bool);
*)
gcdRight ==
  b = 0
    => (IF x = 0 /\ y = 0
    THEN a = 0
    ELSE a > 0
      /\ divides(a, x)
      /\ divides(a, y)
      /\ (\A d_165 \in 1 .. N:
        divides(d_165, x) /\ divides(d_165, y) => d_165 <= a))

(*
  @type: (() => Bool);
*)
lcmRight ==
  (b = 0 /\ x > 0) /\ y > 0
    => y % a = 0
      /\ divides(x, (x * (y \div a)))
      /\ divides(y, (x * (y \div a)))
      /\ (\A k_222 \in 1 .. y: k_222 * x % y = 0 => k_222 * x >= x * (y \div a))

(*
  @type: (() => Bool);
*)
init ==
  \E p \in 0 .. N: \E q \in 0 .. N: x = p/\ y = q/\ a = p/\ b = q/\ steps = 0

(*
  @type: (() => Bool);
*)
correct == ((sameDivisors /\ gcdRight) /\ lcmRight) /\ shallow

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
