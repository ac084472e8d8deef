------------------------------ MODULE MCTensor ------------------------------
(* All configurations of the tensor-product layers: two input types, output  *)
(* degree, pseudotensors, degree order and layer.  A behaviour chooses one    *)
(* configuration and then couples the input slots one pair at a time; at the  *)
(* end the occupied output slots are those of Reach, whatever the order.      *)
EXTENDS Features, Json, SequencesExt, FiniteSetsExt
CONSTANTS InL, OutL
VARIABLES cfg, todo, occ
vars == <<cfg, todo, occ>>
InTypes == [P : 1..2, L : 0..InL]
Kinds == {"tensor", "fused"}
Out(c) == TensorType(c.t1, c.t2, c.L3, c.incl)
Init == /\ cfg \in [kind : Kinds, t1 : InTypes, t2 : InTypes, L3 : (-1)..OutL,
                    incl : BOOLEAN, cart : BOOLEAN]
        /\ TensorValid(cfg.t1, cfg.t2, cfg.L3)
        /\ todo = SlotsOf(cfg.t1) \X SlotsOf(cfg.t2)
        /\ occ = {}
\* couple all pairs with the first slot s1 (the order of pairs is irrelevant)
Couple == /\ todo # {}
          /\ LET s == CHOOSE x \in todo : TRUE IN
             LET now == {x \in todo : x[1] = s[1]} IN
             /\ occ' = occ \cup UNION {PairReach(cfg.t1, x[1], cfg.t2, x[2], Out(cfg)) : x \in now}
             /\ todo' = todo \ now
          /\ UNCHANGED cfg
Next == Couple
Spec == Init /\ [][Next]_vars
Done == todo = {}
ReachIsUnion == Done => occ = Reach(cfg.t1, SlotsOf(cfg.t1), cfg.t2, SlotsOf(cfg.t2), Out(cfg))
Typed == occ \subseteq SlotsOf(Out(cfg))
\* the output parity channel is dropped only if nothing can reach it (or on request)
Dropped == Done /\ Out(cfg).P = 1 /\ cfg.incl =>
  LET full == [P |-> 2, L |-> Out(cfg).L] IN
  {s \in Reach(cfg.t1, SlotsOf(cfg.t1), cfg.t2, SlotsOf(cfg.t2), full) : PseudoOf(full, s)} = {}
Emit == Done => PrintT(ToJson(
  [kind |-> cfg.kind, P1 |-> cfg.t1.P, L1 |-> cfg.t1.L, P2 |-> cfg.t2.P, L2 |-> cfg.t2.L,
   L3 |-> cfg.L3, incl |-> cfg.incl, cart |-> cfg.cart, P |-> Out(cfg).P, L |-> Out(cfg).L]))
=============================================================================
