----------------------------- MODULE MCSafeNorm -----------------------------
(* Calls of the norm functions: array shape, reduced axes, keepdims, and the  *)
(* scales that are mixed in one array.                                        *)
EXTENDS SafeNorm, TLC, Json
VARIABLES shape, axes, keep, mix
vars == <<shape, axes, keep, mix>>
Shapes == { <<3>>, <<1>>, <<4, 3>>, <<3, 5>>, <<2, 3>>, <<2, 2, 3>>, <<3, 1, 4>>, <<2, 3, 2, 2>> }
Mixes == {"one", "zeros", "wide", "tiny", "huge", "edge"}
Init == shape \in Shapes /\ axes \in (SUBSET (1..Len(shape)) \ {{}}) /\ keep \in BOOLEAN /\ mix \in Mixes
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Prod(_, _)
Prod(s, i) == IF i = 0 THEN 1 ELSE s[i] * Prod(s, i - 1)
Size(s) == Prod(s, Len(s))
ShapeOk == /\ Len(Reduced(shape, axes, TRUE)) = Len(shape)
           /\ Size(Reduced(shape, axes, TRUE)) = Size(Reduced(shape, axes, FALSE))
           /\ Size(shape) % Size(Reduced(shape, axes, FALSE)) = 0
\* the derivative of the direction is orthogonal to it, and vanishes along it
V == { << <<3,4>>, 5 >>, << <<1,2,2>>, 3 >>, << <<0,-3,0,4>>, 5 >>, << <<2,3,6>>, 7 >>, << <<-7>>, 7 >> }
TurnOk == \A x \in V :
  /\ Norm2V(x[1]) = x[2] * x[2]
  /\ \A i \in 1..Len(x[1]) : Near(Turn(x[1], x[2], x[1])[i], 0, 2)
  /\ LET t == [i \in 1..Len(x[1]) |-> i * i - 2] d == Turn(x[1], x[2], t) IN Near(DotS(d, x[1], Len(t)), 0, 20)
Emit == PrintT(ToJson([shape |-> shape, axes |-> axes, keep |-> keep, mix |-> mix]))
=============================================================================
