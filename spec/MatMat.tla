------------------------------- MODULE MatMat -------------------------------
(* Square matrices made of irreducible blocks.  A space is a sequence of      *)
(* degrees ds, each taken mult times; block (i, j) of the matrix couples      *)
(* ds[i] with ds[j] and holds, for every ordered pair (r, c) of copies, one   *)
(* irrep of every degree |ds[i]-ds[j]| .. Min(ds[i]+ds[j], max).  The irreps  *)
(* of one degree are numbered in the order in which the blocks, row by row,   *)
(* and within a block the pairs of copies, row by row, use them.              *)
EXTENDS Integers, Sequences, FiniteSets
Lo(a, b) == IF a > b THEN a - b ELSE b - a
Hi(a, b, max) == IF a + b < max THEN a + b ELSE max
Top(ds) == LET S == {ds[i] : i \in 1..Len(ds)} IN CHOOSE x \in S : \A y \in S : y <= x
Blocks(ds) == (1..Len(ds)) \X (1..Len(ds))
Uses(ds, max, b, d) == Lo(ds[b[1]], ds[b[2]]) <= d /\ d <= Hi(ds[b[1]], ds[b[2]], max)
\* the number of irreps of degree d (for mult = 1)
Number(ds, max, d) == Cardinality({b \in Blocks(ds) : Uses(ds, max, b, d)})
Before(b, c) == b[1] < c[1] \/ (b[1] = c[1] /\ b[2] < c[2])
\* the first irrep of degree d (from 0) that block b uses
First(ds, max, mult, b, d) ==
  mult * mult * Cardinality({c \in Blocks(ds) : Before(c, b) /\ Uses(ds, max, c, d)})
\* the block and the copies of irrep k (from 0) of degree d
Place(ds, max, mult, d, k) ==
  LET b == CHOOSE x \in Blocks(ds) : Uses(ds, max, x, d) /\ First(ds, max, mult, x, d) <= k
                                      /\ k < First(ds, max, mult, x, d) + mult * mult
      q == k - First(ds, max, mult, b, d)
  IN [b |-> b, r |-> q \div mult, c |-> q % mult]
RECURSIVE SideTo(_, _)
SideTo(ds, n) == IF n = 0 THEN 0 ELSE 2 * ds[n] + 1 + SideTo(ds, n - 1)
Side(ds, mult) == mult * SideTo(ds, Len(ds))
\* rows of copy r (from 0) of part i: Start + 1 .. Start + 2 ds[i] + 1
Start(ds, mult, i, r) == mult * SideTo(ds, i - 1) + r * (2 * ds[i] + 1)
RECURSIVE Dims(_, _, _)
Dims(ds, max, d) == IF d < 0 THEN 0 ELSE (2 * d + 1) * Number(ds, max, d) + Dims(ds, max, d - 1)
\* the scalar irreps, in the order of the traces of the diagonal parts
TraceIndex(ds, max, mult, i, r, c) == First(ds, max, mult, <<i, i>>, 0) + r * mult + c
=============================================================================
