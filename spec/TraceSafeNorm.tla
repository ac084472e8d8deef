--------------------------- MODULE TraceSafeNorm ---------------------------
(* Recorded calls of norm, normalize and normalize_and_return_norm.           *)
EXTENDS TraceBase, SafeNorm
Axes(e) == {e.axes[i] : i \in 1..Len(e.axes)}
NearS(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
\* one group: v, n, k and the recorded norm, unit, gradient, ...
Group(g) ==
  LET n == g.nv IN
  IF n = 0 THEN
    Clause("the norm of zero is zero", g.norm = 0)
    \cup Clause("zero normalizes to zero", \A i \in 1..Len(g.unit) : g.unit[i] = 0)
  ELSE
    Clause("machinery: the enumerated norm is exact", Norm2V(g.v) = n * n)
    \cup Clause("the norm is accurate", Near(g.norm, n * 10000, 2))
    \cup Clause("the gradient of the norm is the direction", NearS(g.grad, UnitV(g.v, n), 2))
    \cup (IF Undecided(g.k) THEN {}
          ELSE IF Small(g.k) THEN
            Clause("vectors of almost zero norm are left alone", NearS(g.unit, [i \in 1..Len(g.v) |-> g.v[i] * U], 2))
          ELSE Clause("the vector is normalized", NearS(g.unit, UnitV(g.v, n), 2))
               \cup Clause("the derivative of the direction is correct", g.k >= 55 \/ NearS(g.turn, Turn(g.v, n, g.t), 12))
               \cup Clause("the second derivative of the norm is correct", g.k >= 55 \/ NearS(g.hess, Turn(g.v, n, g.t), 12)))
Call(e) ==
  IF e.exc # "" THEN {"a valid call raised"} ELSE
  Clause("the norm has the documented shape", e.nshape = Reduced(e.shape, Axes(e), e.keep))
  \cup Clause("the returned norm has the documented shape", e.nshape2 = Reduced(e.shape, Axes(e), e.keep))
  \cup Clause("the normalized array has the shape of the input", e.yshape = e.shape)
  \cup Clause("norm, normalize and normalize_and_return_norm agree", e.agree)
  \cup Clause("values and first and second derivatives are finite", e.finite)
  \cup UNION {Group(e.groups[i]) : i \in 1..Len(e.groups)}
Fails(e) == IF e.op = "norm" THEN Call(e) ELSE {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
