------------------------------ MODULE Features ------------------------------
(* Types of equivariant features and the typing of the library's layers.     *)
(* A feature type is [P, L]: number of parity channels and maximum degree.   *)
(* Slots and their parities are defined in Irreps.                            *)
EXTENDS Irreps

Type == [P : 1..2, L : 0..LMax]
SlotsOf(t) == Slots(t.P, t.L)
ParityOf(t, s) == Parity(t.P, s[1], s[2])
PseudoOf(t, s) == IsPseudo(t.P, s[1], s[2])
\* the slot of type t holding (parity pi, degree l), if any
HasSlot(t, pi, l) == l <= t.L /\ (t.P = 2 \/ pi = l % 2)
SlotFor(t, pi, l) == <<IF t.P = 2 THEN pi ELSE 0, l>>

\* ---- coupling of two slots ---------------------------------------------------
Triangle(l1, l2, l3) == l3 <= l1 + l2 /\ l1 <= l2 + l3 /\ l2 <= l1 + l3
Couples(t1, s1, t2, s2, t3, s3) ==
  /\ Triangle(s1[2], s2[2], s3[2])
  /\ (ParityOf(t1, s1) + ParityOf(t2, s2)) % 2 = ParityOf(t3, s3)
PairReach(t1, s1, t2, s2, t3) == {s3 \in SlotsOf(t3) : Couples(t1, s1, t2, s2, t3, s3)}
\* slots of t3 fed by occupied slots o1 of t1 and o2 of t2
Reach(t1, o1, t2, o2, t3) == UNION {PairReach(t1, s1, t2, s2, t3) : s1 \in o1, s2 \in o2}

\* ---- output types of the layers ------------------------------------------------
DefaultL(L1, L2, L3) == IF L3 >= 0 THEN L3 ELSE IF L1 > L2 THEN L1 ELSE L2   \* L3 = -1: default
TensorType(t1, t2, L3, incl) ==
  LET L == DefaultL(t1.L, t2.L, L3)
      none == t1.P = 1 /\ t2.P = 1 /\ (t1.L = 0 \/ t2.L = 0 \/ L = 0)
  IN [P |-> IF none \/ ~incl THEN 1 ELSE 2, L |-> L]
TensorValid(t1, t2, L3) == DefaultL(t1.L, t2.L, L3) <= t1.L + t2.L
AddType(t1, t2) == [P |-> IF t1.P > t2.P THEN t1.P ELSE t2.P,
                    L |-> IF t1.L > t2.L THEN t1.L ELSE t2.L]
\* keep the slots of t that exist in u
Transfer(t, o, u) == {SlotFor(u, ParityOf(t, s), s[2]) :
                       s \in {x \in o : HasSlot(u, ParityOf(t, x), x[2])}}
=============================================================================
