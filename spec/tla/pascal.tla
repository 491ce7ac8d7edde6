-------------------------------- MODULE pascal --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
N == 7

VARIABLE
  (*
    @type: Int;
  *)
  n

VARIABLE
  (*
    @type: Int;
  *)
  k

VARIABLE
  (*
    @type: Seq(<<Int, Int>>);
  *)
  stack

VARIABLE
  (*
    @type: Int;
  *)
  sum

(*
  @type: ((Int, Int) => Int);
*)
choose(m_478, j_478) ==
  IF j_478 > m_478
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  above ==
    LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA0(acc_452, i_452) ==
      IF i_452 <= j_478 THEN acc_452 * (m_478 - i_452 + 1) ELSE acc_452
    IN
    ApaFoldSet(__QUINT_LAMBDA0, 1, (1 .. N))
  IN
  LET (*
    @type: (() => Int);
  *)
  below ==
    LET (*
      @type: ((Int, Int) => Int);
    *)
    __QUINT_LAMBDA1(acc_469, i_469) ==
      IF i_469 <= j_478 THEN acc_469 * i_469 ELSE acc_469
    IN
    ApaFoldSet(__QUINT_LAMBDA1, 1, (1 .. N))
  IN
  above \div below

(*
  @type: (() => Bool);
*)
init ==
  \E p \in 0 .. N:
    \E q \in 0 .. N: n = p/\ k = q/\ stack = <<<<p, q>>>>/\ sum = 0

(*
  @type: (() => Bool);
*)
step ==
  IF Len(stack) = 0
  THEN n' := n
    /\ k' := k
    /\ stack' := stack
    /\ sum' := sum
  ELSE LET (*@type: (() => <<Int, Int>>); *) top == Head(stack) IN
  LET (*@type: (() => Seq(<<Int, Int>>)); *) rest == Tail(stack) IN
  n' := n
    /\ k' := k
    /\ (IF (top)[2] = 0 \/ (top)[1] = (top)[2]
    THEN stack' := (rest) /\ sum' := (sum + 1)
    ELSE IF (top)[1] = 0
    THEN stack' := (rest) /\ sum' := sum
    ELSE stack'
        := (Append((Append((rest), <<((top)[1] - 1), ((top)[2] - 1)>>)), <<
          ((top)[1] - 1), (top)[2]
        >>))
      /\ sum' := sum)

(*
  @type: (() => Int);
*)
left ==
  LET (*
    @type: ((Int, <<Int, Int>>) => Int);
  *)
  __QUINT_LAMBDA2(s_621, c_621) == s_621 + choose(c_621[1], c_621[2])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, 0, stack)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
invariant_ == sum + left = choose(n, k)

(*
  @type: (() => Bool);
*)
correct == invariant_ /\ (Len(stack) = 0 => sum = choose(n, k))

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
