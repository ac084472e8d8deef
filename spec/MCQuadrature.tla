---------------------------- MODULE MCQuadrature ----------------------------
(* Requests for quadrature rules.  Checks that the specified answers keep the *)
(* documented promises and emits every request.                               *)
EXTENDS Quadrature, TLC, Json
VARIABLES kind, how, x
vars == <<kind, how, x>>
Kinds == {"Lebedev", "Delley"}
Nums(k) == UNION {{r[2] - 1, r[2], r[2] + 1} : r \in {Rules(k)[i] : i \in 1..Len(Rules(k))}} \cup {-10, -1, 0, 1, 5, 1000, 5000, 10000, 1000000}
Init == kind \in Kinds /\ \/ how = "precision" /\ x = -3
                          \/ how = "num" /\ x \in Nums(kind)
                          \/ how \in {"both", "none"} /\ x = 0
Next == how = "precision" /\ x < 140 /\ x' = x + 1 /\ UNCHANGED <<kind, how>>
Spec == Init /\ [][Next]_vars
R == Rules(kind)
Last == R[Len(R)]
Sorted == \A i \in 1..(Len(R) - 1) : R[i][1] < R[i+1][1] /\ R[i][2] < R[i+1][2]
Promise == how \in {"precision", "num"} =>
  LET a == Answer(kind, how, x) IN
  IF how = "precision"
  THEN /\ a[1] >= x \/ a = Last
       /\ \A i \in 1..Len(R) : R[i][1] >= x => R[i][2] >= a[2]
  ELSE /\ a[2] <= x \/ a = R[1]
       /\ \A i \in 1..Len(R) : R[i][2] <= x => R[i][1] <= a[1]
\* asking for what was answered answers the same
Stable == how \in {"precision", "num"} =>
  LET a == Answer(kind, how, x) IN ByPrecision(kind, a[1]) = a /\ ByNum(kind, a[2]) = a
\* x^2 + y^2 + z^2 = 1 under the mean
Trace1 == \A a, b, c \in {0, 2, 4} : Near(Mean(a + 2, b, c) + Mean(a, b + 2, c) + Mean(a, b, c + 2), Mean(a, b, c), 3)
Emit == PrintT(ToJson([kind |-> kind, how |-> how, x |-> x]))
=============================================================================
