------------------------------ MODULE MCLayers ------------------------------
(* Configurations of the layers on graphs and the types of their results.     *)
(*   mp    message passing: filters (basis type) times features of the source *)
(*   mha   attention: queries q, keys and values kv                           *)
(*   self  attention with kv = q                                              *)
(* A behaviour picks a configuration and derives its result stage by stage:   *)
(* "pick" -> "coupled" (messages) -> "out" (attention projects once more).    *)
EXTENDS Features, Json, SequencesExt, FiniteSetsExt
CONSTANTS InL, BasisL, OutL
VARIABLES cfg, stage, t, occ
vars == <<cfg, stage, t, occ>>

InTypes == [P : 1..2, L : 0..InL]
BasisType(c) == [P |-> 1, L |-> c.Lb]
Kinds == {"mp", "mha", "self"}
\* without relative positional encoding of the values nothing is coupled
Coupled(c) == c.kind = "mp" \/ c.relv
ValueType(c) == c.kv
MessageType(c) == IF Coupled(c) THEN TensorType(BasisType(c), c.kv, c.L3, c.incl) ELSE c.kv
\* the filters are a dense layer of the basis: all its slots
MessageOcc(c) ==
  IF Coupled(c) THEN Reach(BasisType(c), SlotsOf(BasisType(c)), c.kv, SlotsOf(c.kv), MessageType(c))
  ELSE SlotsOf(c.kv)
Valid(c) == Coupled(c) => TensorValid(BasisType(c), c.kv, c.L3)

Init ==
  /\ cfg \in [kind : Kinds, q : InTypes, kv : InTypes, Lb : 0..BasisL, L3 : (-1)..OutL,
              incl : BOOLEAN, fused : BOOLEAN, relqk : BOOLEAN, relv : BOOLEAN]
  /\ (cfg.kind # "mha" => cfg.q = cfg.kv)
  /\ (cfg.kind = "mp" => ~cfg.relqk /\ ~cfg.relv)
  /\ (~Coupled(cfg) => cfg.L3 = -1 /\ cfg.incl /\ ~cfg.fused /\ (~cfg.relqk => cfg.Lb = 0))
  /\ Valid(cfg)
  /\ stage = "pick" /\ t = cfg.kv /\ occ = SlotsOf(cfg.kv)
Couple == /\ stage = "pick" /\ stage' = "coupled"
          /\ t' = MessageType(cfg) /\ occ' = MessageOcc(cfg) /\ UNCHANGED cfg
Project == /\ stage = "coupled" /\ stage' = "out"
           /\ UNCHANGED <<cfg, t>>
           /\ occ' = IF cfg.kind = "mp" THEN occ ELSE occ \cup {<<0, 0>>}
Next == Couple \/ Project
Spec == Init /\ [][Next]_vars

Typed == occ \subseteq SlotsOf(t)
\* the dot product of queries and keys runs over slots both have, each an invariant
CommonSlots(c) == {s \in SlotsOf(c.q) : HasSlot(c.kv, ParityOf(c.q, s), s[2])}
DotType(c) == [P |-> IF c.q.P < c.kv.P THEN c.q.P ELSE c.kv.P,
               L |-> IF c.q.L < c.kv.L THEN c.q.L ELSE c.kv.L]
DotIsComplete == Transfer(cfg.q, CommonSlots(cfg), DotType(cfg)) = SlotsOf(DotType(cfg))
\* a message keeps the input type up to the requested degree if the basis has a scalar
KeepsInput == stage = "out" /\ cfg.incl /\ t.P >= cfg.kv.P =>
  \A s \in Transfer(cfg.kv, SlotsOf(cfg.kv), t) : s \in occ
Emit == stage = "out" => PrintT(ToJson(
  [kind |-> cfg.kind, qP |-> cfg.q.P, qL |-> cfg.q.L, kP |-> cfg.kv.P, kL |-> cfg.kv.L, Lb |-> cfg.Lb,
   L3 |-> cfg.L3, incl |-> cfg.incl, fused |-> cfg.fused, relqk |-> cfg.relqk, relv |-> cfg.relv,
   oP |-> t.P, oL |-> t.L, occ |-> occ]))
=============================================================================
