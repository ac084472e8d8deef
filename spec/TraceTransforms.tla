-------------------------- MODULE TraceTransforms --------------------------
(* Recorded evaluations of one function under a program of transformations,   *)
(* against the evaluation of every element on its own; and derivatives        *)
(* against central differences.  Numbers are millionths of the largest entry *)
(* of the element; 2*10^9, -2*10^9 and 19*10^8 stand for +-infinity and NaN.  *)
EXTENDS TraceBase
T == INSTANCE Transforms
Finite(a) == AbsI(a) <= 1500000000
Near(a, b, tol) == IF Finite(a) /\ Finite(b) THEN AbsI(a - b) <= tol ELSE a = b
Program(e) ==
  IF e.exc # "" THEN {"the program can be evaluated"}
  ELSE Clause("a result has the batch shape followed by the shape of one element",
              \A j \in 1..Len(e.shape) : e.shape[j] = e.dim \o e.core[j])
    \cup Clause("results do not depend on transformations and other elements",
              \A k \in 1..Len(e.ref) : \A i \in 1..Len(e.ref[k]) : Near(e.out[k][i], e.ref[k][i], e.tol))
    \cup Clause("only programs of the model", T!Typed(e.prog, Len(e.dim)) /\ \A i \in 1..Len(e.prog) : e.prog[i] \in T!Ts)
\* a difference quotient tells something only if it does not depend on the step
Steady(d, tol) == Finite(d[2]) /\ Finite(d[3]) /\ 10 * AbsI((d[2] - d[3]) \div 1) <= tol
Agrees(d, tol) == Steady(d, tol) => Near(d[1], d[3], tol)
Derivative(e) ==
  IF e.exc # "" THEN {"derivatives can be evaluated"}
  ELSE Clause("derivatives are the limits of difference quotients", \A i \in 1..Len(e.d1) : Agrees(e.d1[i], e.tol))
    \cup Clause("forward and reverse derivatives agree", Near(e.dual[1], e.dual[2], e.tol))
    \cup Clause("second derivatives are the limits of difference quotients", \A i \in 1..Len(e.d2) : Agrees(e.d2[i], e.tol))
    \cup Clause("mixed second derivatives are symmetric", Near(e.dual2[1], e.dual2[2], e.tol))
\* ---- helpers ---------------------------------------------------------------------
RECURSIVE Pow(_, _), Falling(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Falling(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE n * Falling(n - 1, k - 1)
\* the k-th derivative of x^p
PowD(x, p, k) == IF k > p THEN 0 ELSE Falling(p, k) * Pow(x, p - k)
Taylor(e) == IF e.exc # "" THEN {"derivatives can be evaluated"}
  ELSE Clause("all derivatives up to the requested order, starting with the value",
              /\ e.integral
              /\ e.out = [k \in 1..(e.n + 1) |-> [i \in 1..Len(e.x) |-> PowD(e.x[i], e.p, k - 1)]])
Softplus(e) == IF e.exc # "" THEN {"inverse_softplus can be evaluated"}
  ELSE Clause("inverse_softplus is finite", e.finite)
    \cup Clause("inverse_softplus is the inverse of softplus", \A i \in 1..Len(e.ks) : e.dev[i] <= 5 /\ AbsI(e.back[i] - 1000000) <= 60)
    \cup Clause("inverse_softplus is increasing and below its argument",
                \A i \in 1..Len(e.ks) : e.y[i] <= 1000 * (e.x[i] + 1) /\ (i < Len(e.ks) => e.y[i] <= e.y[i + 1]))
Fails(e) == CASE e.op = "taylor" -> Taylor(e)
              [] e.op = "softplus" -> Softplus(e)
              [] e.op = "program" -> Program(e)
              [] e.op = "derivative" -> Derivative(e)
              [] OTHER -> {"unknown event " \o e.op}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
