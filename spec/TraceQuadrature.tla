-------------------------- MODULE TraceQuadrature --------------------------
(* Recorded requests for quadrature rules, and the moments of returned rules. *)
EXTENDS TraceBase, Quadrature
ReqCall(e) ==
  IF e.how \in {"both", "none"} THEN Clause("an ambiguous request is rejected with ValueError", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"a valid call raised"} ELSE
  LET a == Answer(e.kind, e.how, e.x) IN
  Clause("the request gets the documented rule", e.n = a[2])
  \cup Clause("points and weights have the documented shapes", e.shapeok)
  \cup Clause("the same rule is returned for its own precision and size", e.same)
\* moments are recorded in units of 1/U, in the order of MonoSeq
GridCall(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the points lie on the unit sphere", e.unitppm <= 3)
  \cup Clause("the weights sum to one", e.sumppm <= 3)
  \cup Clause("the points are distinct", e.distinct)
  \cup Clause("monomials up to the precision are integrated exactly",
       \A i \in 1..Len(e.mono) :
         LET m == e.mono[i] IN m[1] + m[2] + m[3] <= e.precision => Near(e.mean[i], Mean(m[1], m[2], m[3]), 1))
  \cup Clause("all harmonics up to the precision are integrated exactly",
       Len(e.power) = e.precision + 1 /\ \A d \in 1..Len(e.power) : e.power[d] <= 5)
Fails(e) == IF e.op = "req" THEN ReqCall(e) ELSE IF e.op = "grid" THEN GridCall(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
