--------------------------- MODULE TraceRequests ---------------------------
(* Recorded requests: the exception raised (or "") and the shape of the       *)
(* result.                                                                    *)
EXTENDS TraceBase, Requests
Fails(e) ==
  LET r == Reasons(e.q) IN
  IF r = {} THEN
    Clause("a valid request was rejected", e.exc = "")
    \cup (IF e.exc # "" THEN {} ELSE
      Clause("a valid request has the documented shape", Shape(e.q) = <<-1>> \/ Shape(e.q) = e.shape))
  ELSE IF e.exc = "" THEN {"an invalid request was accepted"}
  ELSE Clause("an invalid request raises the documented error", e.exc \in r)
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
