--------------------------------- MODULE turns ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
U == 1000

(*
  @type: (() => Int);
*)
PI == 3142

(*
  @type: (() => Int);
*)
E == 3

VARIABLE
  (*
    @type: Int;
  *)
  x

VARIABLE
  (*
    @type: Int;
  *)
  r

VARIABLE
  (*
    @type: Int;
  *)
  count

(*
  @type: ((Int) => Int);
*)
mag(i_1515) == IF i_1515 < 0 THEN -i_1515 ELSE i_1515

(*
  @type: ((Int) => Bool);
*)
near(v_1442) == (v_1442 \div PI + 1) * PI - v_1442 <= E

(*
  @type: (() => Bool);
*)
same == (x - r) % PI = 0

(*
  @type: (() => Bool);
*)
once == count <= 1

(*
  @type: (() => Bool);
*)
small == r >= -E /\ (count = 1 => r < PI)

(*
  @type: (() => Bool);
*)
init == \E a \in 0 .. 12 * U: x = a /\ r = a /\ count = 0

(*
  @type: (() => Bool);
*)
step ==
  (r > PI
      /\ x' := x
      /\ r' := (r - PI * (r \div PI))
      /\ count' := (count + 1))
    \/ (r > PI
      /\ near(r)
      /\ x' := x
      /\ r' := (r - PI * (r \div PI + 1))
      /\ count' := (count + 1))
    \/ (r <= PI
      /\ x' := x
      /\ r' := r
      /\ count' := count)

(*
  @type: (() => Bool);
*)
correct == (same /\ once) /\ small

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
