--------------------------- MODULE MCTransforms ---------------------------
(* All programs of up to three transformations on small batches.  A primitive *)
(* that treats elements independently gives the same result under each of    *)
(* them; primitives that let elements of a batch see each other (through the *)
(* largest element, the position or the batch size) are told apart by some    *)
(* program, so comparing programs is a complete test of independence here.    *)
EXTENDS Transforms, Json
VARIABLES dim, prog
vars == <<dim, prog>>
Dims == {<<>>, <<1>>, <<2>>, <<2, 2>>, <<2, 3>>, <<3, 1>>}
Elem(i) == IF i = <<>> THEN 5 ELSE i[1] * 3 + (IF Len(i) > 1 THEN i[2] * 7 ELSE 0)
Input(d) == Arr(d, [i \in IdxOf(d) |-> Elem(i)])
F(v) == v * v - 4 * v
MaxOf(A) == CHOOSE m \in {A.at[i] : i \in IdxOf(A.dim)} : \A i \in IdxOf(A.dim) : A.at[i] <= m
Good(A) == Arr(A.dim, [i \in IdxOf(A.dim) |-> F(A.at[i])])
ByMax(A) == Arr(A.dim, [i \in IdxOf(A.dim) |-> IF A.at[i] * 2 < MaxOf(A) THEN 0 ELSE F(A.at[i])])
ByPlace(A) == Arr(A.dim, [i \in IdxOf(A.dim) |-> IF Len(i) > 0 /\ i[1] = A.dim[1] /\ i[1] > 1 THEN 0 ELSE F(A.at[i])])
ByRank(A) == Arr(A.dim, [i \in IdxOf(A.dim) |-> IF Len(A.dim) = 2 THEN F(A.at[i]) + 1 ELSE F(A.at[i])])
Init == dim \in Dims /\ prog = <<>>
Add == /\ Len(prog) < 3
       /\ \E t \in Ts : Typed(Append(prog, t), Len(dim)) /\ prog' = Append(prog, t)
       /\ UNCHANGED dim
Spec == Init /\ [][Add]_vars
Independent == Run(Good, prog, Input(dim), 100).at = Good(Input(dim)).at
ShapeKept == Run(Good, prog, Input(dim), 100).dim = dim
Short == {<<>>} \cup {<<t>> : t \in Ts}
Caught(P(_)) == \E d \in Dims : \E p \in Short : Typed(p, Len(d)) /\ Run(P, p, Input(d), 100).at # Run(P, <<>>, Input(d), 100).at
ASSUME Caught(ByMax) /\ Caught(ByPlace) /\ Caught(ByRank) /\ ~Caught(Good)
Emit == PrintT(ToJson([dim |-> dim, prog |-> prog]))
=============================================================================
