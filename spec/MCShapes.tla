------------------------------ MODULE MCShapes ------------------------------
(* Pairs of shapes: which features may be added or turned.                    *)
EXTENDS FeatureOps, Json
VARIABLES a, b
Dims == {1, 2, 3}
Rows == {1, 2, 3, 4, 9}
Full == {<<p, r, f>> : p \in {1, 2, 3}, r \in Rows, f \in {1, 2}}
Shapes == Full \cup {<<n>> \o s : n \in {1, 3}, s \in Full}
          \cup {<<n, 2>> \o s : n \in {1, 3}, s \in {q \in Full : q[2] \in {1, 4}}}
          \cup {<<r, f>> : r \in {1, 4}, f \in {1, 2}}
Init == a \in Shapes /\ b \in Shapes
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Symmetric == Addable(a, b) = Addable(b, a)
SelfAddable == GoodShape(a) <=> Addable(a, a)
\* shapes that numpy would broadcast against each other are still rejected unless
\* they differ in parity content and degree only
NoBroadcast == Addable(a, b) => \A i \in 1..Len(a) : i \in {Len(a) - 2, Len(a) - 1} \/ a[i] = b[i]
Emit == PrintT(ToJson([a |-> a, b |-> b, ok |-> Addable(a, b)]))
=============================================================================
