----------------------------- MODULE MCFeatures -----------------------------
(* State machine of layer programs: the state is the type of the current     *)
(* features, the set of slots that can be non-zero, and the program so far.  *)
(* Every action is a layer of the library.  TLC explores all programs up to  *)
(* MaxLen and prints them for replay (Emit).                                 *)
EXTENDS Features, Json, IOUtils
CONSTANTS MaxLen, EmitLen, Modes, FinalL
VARIABLES t, occ, prog, src
vars == <<t, occ, prog, src>>

Types == [P : 1..2, L : 0..FinalL]
Step(op, u, o) == /\ Len(prog) < MaxLen
                  /\ t' = u /\ occ' = o /\ prog' = Append(prog, op) /\ src' = src
Init == /\ t \in Types /\ src = t /\ prog = <<>>
        /\ occ = SlotsOf(t)
Dense(b) == "dense" \in Modes /\ Step([op |-> "dense", bias |-> b], t, IF b THEN occ \cup {<<0, 0>>} ELSE occ)
\* a gated activation multiplies every slot by a factor that depends on the scalar slot
Act(a)   == "act" \in Modes /\ Step([op |-> "act", fn |-> a], t, occ)
Change(u) == "change" \in Modes /\ u # t
             /\ Step([op |-> "change", P |-> u.P, L |-> u.L], u, Transfer(t, occ, u))
\* add the (densely transformed) original input: a residual connection
AddSrc   == "add" \in Modes
            /\ Step([op |-> "add"], AddType(t, src),
                    Transfer(t, occ, AddType(t, src)) \cup Transfer(src, SlotsOf(src), AddType(t, src)))
TDense(L3, incl, fused) ==
  /\ "tdense" \in Modes /\ TensorValid(t, t, L3)
  /\ LET u == TensorType(t, t, L3, incl) IN
     Step([op |-> "tdense", L |-> L3, incl |-> incl, fused |-> fused], u, Reach(t, occ, t, occ, u))
Next == \/ \E b \in BOOLEAN : Dense(b)
        \/ Act("any")
        \/ \E u \in Types : Change(u)
        \/ AddSrc
        \/ \E L3 \in (-1)..FinalL : \E incl, fused \in BOOLEAN : TDense(L3, incl, fused)
Spec == Init /\ [][Next]_vars

\* ---- properties of the design ----------------------------------------------
OccupiedSlotsExist == occ \subseteq SlotsOf(t)
\* A single parity channel holds proper tensors only.
ProperOnly == t.P = 1 => \A s \in SlotsOf(t) : ~PseudoOf(t, s)
\* The inversion acts on a slot by its parity; the parity of a slot is that of
\* every path that feeds it (coupling multiplies parities).
CouplingKeepsParity ==
  \A u \in Types : \A s1 \in SlotsOf(t), s2 \in SlotsOf(u) :
    \A w \in Types : \A s3 \in PairReach(t, s1, u, s2, w) :
      InvSign(w.P, s3[1], s3[2]) = InvSign(t.P, s1[1], s1[2]) * InvSign(u.P, s2[1], s2[2])
\* Dropping the pseudotensor channel is lossless exactly in the documented case:
\* both inputs have one parity channel and one of the degrees is zero.
DropsNothing ==
  \A u \in Types : \A L3 \in 0..(t.L + u.L) :
    LET full == [P |-> 2, L |-> L3]
        reach == Reach(t, SlotsOf(t), u, SlotsOf(u), full)
        pseudo == {s \in reach : PseudoOf(full, s)}
    IN (pseudo = {}) <=> (TensorType(t, u, L3, TRUE).P = 1)
\* Proper inputs never produce pseudoscalars.
NoPseudoscalarFromProper ==
  t.P = 1 => \A u \in {x \in Types : x.P = 1} :
               <<1, 0>> \notin Reach(t, SlotsOf(t), u, SlotsOf(u), [P |-> 2, L |-> 0])
\* Changing the type and back loses exactly what the smaller type cannot hold.
ChangeBack == \A u \in Types : Transfer(u, Transfer(t, occ, u), t) \subseteq occ
DesignInv == prog = <<>> => /\ CouplingKeepsParity /\ DropsNothing /\ NoPseudoscalarFromProper

Emit == Len(prog) = EmitLen =>
  PrintT(ToJson([P |-> src.P, L |-> src.L, prog |-> prog, oP |-> t.P, oL |-> t.L, occ |-> occ]))
=============================================================================
