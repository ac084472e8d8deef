---------------------------- MODULE MCFeatureOps ----------------------------
(* Programs of feature operations on exact values.                            *)
EXTENDS FeatureOps, Json
CONSTANTS FL, MaxLen
VARIABLES t, x, prog, src
vars == <<t, x, prog, src>>
Types == [P : 1..2, L : 0..FL]
Init == t \in Types /\ src = t /\ x = Labels(0, t) /\ prog = <<>>
Step(op, u, y) == Len(prog) < MaxLen /\ t' = u /\ x' = y /\ prog' = Append(prog, op) /\ src' = src
Op(o, u) == [op |-> o, P |-> u.P, L |-> u.L]
Next == \/ \E u \in Types : Step(Op("change", u), u, ChangeTo(t, x, u))
        \/ \E u \in Types : Step(Op("add", u), AddType(t, u), AddTo(t, x, u, Labels(Len(prog) + 1, u)))
        \/ Step(Op("reflect", t), t, Reflect(t, x))
        \/ Step(Op("quarter", t), t, Quarter(t, x))
Spec == Init /\ [][Next]_vars
\* ---- laws -----------------------------------------------------------------------
Fits(a, b) == a.P <= b.P /\ a.L <= b.L
TypeOK == DOMAIN x = Comps(t)
WidenNarrow == \A u \in Types : Fits(t, u) => ChangeTo(u, ChangeTo(t, x, u), t) = x
NarrowWiden == \A u \in Types : LET y == ChangeTo(u, ChangeTo(t, x, u), t) IN
  \A c \in Comps(t) : y[c] = (IF Holds(t, c, u) THEN x[c] ELSE 0)
ReflectTwice == Reflect(t, Reflect(t, x)) = x
ReflectCommutes == \A u \in Types : ChangeTo(t, Reflect(t, x), u) = Reflect(u, ChangeTo(t, x, u))
TurnCommutes == \A u \in Types : ChangeTo(t, Quarter(t, x), u) = Quarter(u, ChangeTo(t, x, u))
FourTurns == Quarter(t, Quarter(t, Quarter(t, Quarter(t, x)))) = x
TurnReflect == Quarter(t, Reflect(t, x)) = Reflect(t, Quarter(t, x))
AddCommutes == \A u \in Types : AddTo(t, x, u, Labels(3, u)) = AddTo(u, Labels(3, u), t, x)
AddZero == \A u \in Types : Fits(u, t) => AddTo(t, x, u, Zero(u)) = x
AddEqui == \A u \in Types : LET y == Labels(2, u) w == AddType(t, u) IN
  /\ AddTo(t, Reflect(t, x), u, Reflect(u, y)) = Reflect(w, AddTo(t, x, u, y))
  /\ AddTo(t, Quarter(t, x), u, Quarter(u, y)) = Quarter(w, AddTo(t, x, u, y))
Emit == Len(prog) = MaxLen => PrintT(ToJson([P |-> src.P, L |-> src.L, prog |-> prog]))
=============================================================================
