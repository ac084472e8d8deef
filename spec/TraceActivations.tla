-------------------------- MODULE TraceActivations --------------------------
(* Recorded activation calls.  e.groups lists, for every batch element and    *)
(* feature, the scalar x, all components v (the scalar first) and the         *)
(* recorded outputs y, in fixed point.                                        *)
EXTENDS TraceBase, Activations
Half2 == U \div 2
Others(e, g) == \A k \in 2..Len(g.v) :
  IF FAbs(g.x) >= Half2 THEN Near(g.y[k], Gated(e.name, e.par, g.x, g.v[k]), 110)
  ELSE IF g.x = 0 THEN \E z \in GateZero(e.name, e.par) : Near(g.y[k], FMul(z, g.v[k]), 6)
  ELSE TRUE
Call(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("shape and type of the features are kept", e.shapeok)
  \cup Clause("the scalar channel gets the documented function",
       \A i \in 1..Len(e.groups) : LET g == e.groups[i] IN Near(g.y[1], Act(e.name, e.par, g.x), 14))
  \cup Clause("all other channels are multiplied by the gate of their own feature",
       \A i \in 1..Len(e.groups) : Others(e, e.groups[i]))
  \cup Clause("values are accurate", e.valppm <= 8)
  \cup Clause("derivatives are those of the documented function", e.d1ppm <= 60)
  \cup Clause("values and derivatives are finite", e.finite)
  \cup Clause("values for tiny and huge inputs are accurate", e.endppm <= 8)
  \cup Clause("features and batch elements do not influence each other", e.independent)
Fails(e) == IF e.op = "act" THEN Call(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
