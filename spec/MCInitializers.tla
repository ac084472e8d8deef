--------------------------- MODULE MCInitializers ---------------------------
(* All kernels with small types; a behaviour visits the paths one by one and  *)
(* accumulates the fans and the variance that reaches every output slot.      *)
EXTENDS Initializers, Json, SequencesExt, FiniteSetsExt
CONSTANT ML
VARIABLES t1, t2, t3, todo, into, outof
vars == <<t1, t2, t3, todo, into, outof>>
Types == [P : 1..2, L : 0..ML]
Init == /\ t1 \in Types /\ t2 \in Types /\ t3 \in Types /\ t3.L <= t1.L + t2.L
        /\ todo = SlotsOf(t1) \X SlotsOf(t2)
        /\ into = [s \in SlotsOf(t3) |-> 0] /\ outof = 0
Next == /\ todo # {}
        /\ LET p == CHOOSE q \in todo : TRUE
               r == PairReach(t1, p[1], t2, p[2], t3) IN
           /\ todo' = todo \ {p}
           /\ into' = [s \in SlotsOf(t3) |-> into[s] + (IF s \in r THEN 1 ELSE 0)]
           /\ outof' = outof + FanOut(t1, p[1], t2, p[2], t3)
        /\ UNCHANGED <<t1, t2, t3>>
Spec == Init /\ [][Next]_vars
Done == todo = {}
FansAgree == Done => \A s \in SlotsOf(t3) : into[s] = FanIn(t1, t2, t3, s)
Balance == Done => outof = FoldSet(LAMBDA s, a : a + into[s], 0, SlotsOf(t3))
\* a slot that nothing reaches has no weights: pseudoscalars of products of proper vectors
Unreached == Done /\ t1.P = 1 /\ t2.P = 1 /\ t3.P = 2 => into[<<1, 0>>] = 0
Emit == Done => PrintT(ToJson([P1 |-> t1.P, L1 |-> t1.L, P2 |-> t2.P, L2 |-> t2.L, P3 |-> t3.P, L3 |-> t3.L]))
=============================================================================
