------------------------------- MODULE rounding -------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
P == 9

VARIABLE
  (*
    @type: Int;
  *)
  m

VARIABLE
  (*
    @type: Int;
  *)
  s

VARIABLE
  (*
    @type: Int;
  *)
  whole

VARIABLE
  (*
    @type: Int;
  *)
  pc

VARIABLE
  (*
    @type: Int;
  *)
  fl

VARIABLE
  (*
    @type: Int;
  *)
  ce

VARIABLE
  (*
    @type: Int;
  *)
  tr

VARIABLE
  (*
    @type: Int;
  *)
  ro

(*
  @type: ((Int) => Int);
*)
mag(i_697) == IF i_697 < 0 THEN -i_697 ELSE i_697

(*
  @type: ((Int, Int) => Int);
*)
cut(p_716, q_716) ==
  IF p_716 < 0 THEN -((-p_716) \div q_716) ELSE p_716 \div q_716

(*
  @type: ((Int) => Int);
*)
pow2(k_685) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(acc_683, i_683) ==
    IF i_683 <= k_685 THEN acc_683 * 2 ELSE acc_683
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 1, (1 .. P + 1))

(*
  @type: (() => Bool);
*)
init ==
  \E p \in -511 .. 511:
    \E q \in 0 .. P + 1:
      m = p
        /\ s = q
        /\ whole = 0
        /\ pc = 0
        /\ fl = 0
        /\ ce = 0
        /\ tr = 0
        /\ ro = 0

(*
  @type: (() => Bool);
*)
correct ==
  pc = 2
    => fl * pow2(s) <= m
      /\ m < (fl + 1) * pow2(s)
      /\ (ce - 1) * pow2(s) < m
      /\ m <= ce * pow2(s)
      /\ mag(tr) * pow2(s) <= mag(m)
      /\ mag(m) < (mag(tr) + 1) * pow2(s)
      /\ tr * m >= 0
      /\ 2 * mag((ro * pow2(s) - m)) <= pow2(s)
      /\ (2 * mag((ro * pow2(s) - m)) = pow2(s) => mag(ro) * pow2(s) > mag(m))

(*
  @type: (() => Bool);
*)
step ==
  (pc = 0
      /\ pc' := 1
      /\ whole' := (cut(m, (pow2(s))))
      /\ m' := m
      /\ s' := s
      /\ fl' := fl
      /\ ce' := ce
      /\ tr' := tr
      /\ ro' := ro)
    \/ (pc = 1
      /\ pc' := 2
      /\ whole' := whole
      /\ m' := m
      /\ s' := s
      /\ fl' := (whole - (IF m < 0 /\ m < whole * pow2(s) THEN 1 ELSE 0))
      /\ ce' := (whole + (IF m > 0 /\ m > whole * pow2(s) THEN 1 ELSE 0))
      /\ tr' := whole
      /\ ro'
        := (LET (*@type: (() => Int); *) c == cut((mag(m)), (pow2(s))) IN
        LET (*
          @type: (() => Int);
        *)
        r == IF 2 * (mag(m) - c * pow2(s)) >= pow2(s) THEN c + 1 ELSE c
        IN
        IF m < 0 THEN -r ELSE r))
    \/ (pc = 2
      /\ pc' := 2
      /\ whole' := whole
      /\ m' := m
      /\ s' := s
      /\ fl' := fl
      /\ ce' := ce
      /\ tr' := tr
      /\ ro' := ro)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == correct

================================================================================
