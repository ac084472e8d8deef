----------------------------- MODULE Quadrature -----------------------------
(* Which quadrature rule a request gets, and what a rule integrates exactly.  *)
EXTENDS Fixed, FiniteSets
\* rules <<precision, number of points>>, as published by Lebedev and Delley
Lebedev == << <<3,6>>, <<5,14>>, <<7,26>>, <<9,38>>, <<11,50>>, <<13,74>>, <<15,86>>, <<17,110>>, <<19,146>>,
  <<21,170>>, <<23,194>>, <<25,230>>, <<27,266>>, <<29,302>>, <<31,350>>, <<35,434>>, <<41,590>>, <<47,770>>,
  <<53,974>>, <<59,1202>>, <<65,1454>>, <<71,1730>>, <<77,2030>>, <<83,2354>>, <<89,2702>>, <<95,3074>>,
  <<101,3470>>, <<107,3890>>, <<113,4334>>, <<119,4802>>, <<125,5294>>, <<131,5810>> >>
Delley == << <<5,14>>, <<7,26>>, <<11,50>>, <<17,110>>, <<23,194>>, <<29,302>>, <<35,434>>, <<41,590>>, <<47,770>>,
  <<53,974>>, <<59,1202>>, <<65,1454>>, <<71,1730>>, <<77,2030>>, <<83,2354>>, <<89,2702>>, <<95,3074>>, <<101,3470>> >>
Rules(kind) == IF kind = "Lebedev" THEN Lebedev ELSE Delley

\* by precision: the smallest rule which is precise enough, else the largest rule
ByPrecision(kind, p) ==
  LET R == Rules(kind) S == {i \in 1..Len(R) : R[i][1] >= p}
  IN IF S = {} THEN R[Len(R)] ELSE R[CHOOSE i \in S : \A j \in S : R[i][2] <= R[j][2]]
\* by number of points: the most precise rule which is not larger, else the smallest
ByNum(kind, n) ==
  LET R == Rules(kind) S == {i \in 1..Len(R) : R[i][2] <= n}
  IN IF S = {} THEN R[1] ELSE R[CHOOSE i \in S : \A j \in S : R[i][1] >= R[j][1]]
Answer(kind, how, x) == IF how = "precision" THEN ByPrecision(kind, x) ELSE ByNum(kind, x)

RECURSIVE DF(_)
DF(n) == IF n <= 0 THEN 1 ELSE n * DF(n - 2)
\* mean of x^a y^b z^c over the sphere, in fixed point
Mean(a, b, c) ==
  IF a % 2 = 1 \/ b % 2 = 1 \/ c % 2 = 1 THEN 0
  ELSE RDiv(DF(a - 1) * DF(b - 1) * DF(c - 1) * U, DF(a + b + c + 1))
=============================================================================
