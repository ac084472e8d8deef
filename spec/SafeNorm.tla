------------------------------ MODULE SafeNorm ------------------------------
(* Norms of arrays along axes.  A group is one reduction: an integer vector v *)
(* of integer norm n, scaled by 2^k; expected values do not depend on k.      *)
EXTENDS Fixed, FiniteSets
\* axes are 1..Len(shape) here
Reduced(shape, axes, keep) ==
  IF keep THEN [i \in 1..Len(shape) |-> IF i \in axes THEN 1 ELSE shape[i]]
  ELSE LET S == {i \in 1..Len(shape) : i \notin axes}
           At(j) == CHOOSE i \in S : Cardinality({x \in S : x <= i}) = j
       IN [j \in 1..Cardinality(S) |-> shape[At(j)]]
RECURSIVE SumSq(_, _)
SumSq(v, i) == IF i = 0 THEN 0 ELSE v[i] * v[i] + SumSq(v, i - 1)
RECURSIVE DotS(_, _, _)
DotS(u, v, i) == IF i = 0 THEN 0 ELSE u[i] * v[i] + DotS(u, v, i - 1)
Norm2V(v) == SumSq(v, Len(v))
UnitV(v, n) == [i \in 1..Len(v) |-> RDiv(v[i] * U, n)]
\* derivative of v/|v| along t: (t - v (v.t)/n^2) / n
Turn(v, n, t) == LET d == DotS(v, t, Len(v)) IN
  [i \in 1..Len(v) |-> RDiv(RDiv((t[i] * n * n - v[i] * d) * 1000, n * n) * (U \div 1000), n)]
\* Is the vector left unnormalized? (its squared norm is below the smallest
\* normal number 2^-126)
Small(k) == k <= -68
Undecided(k) == k > -68 /\ k < -62
=============================================================================
