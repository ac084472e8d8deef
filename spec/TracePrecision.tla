--------------------------- MODULE TracePrecision ---------------------------
(* Recorded types and errors (in units of the roundoff) against Precision.    *)
EXTENDS TraceBase
R == INSTANCE Precision
SetOf(s) == {s[i] : i \in 1..Len(s)}
Within(errs, k) == \A i \in 1..Len(errs) : errs[i] <= k
\* How many roundoffs a function may lose (its condition on the inputs of the driver)
Lost(e) == CASE e.fn \in {"gather", "tensors", "embed"} -> 64
             [] e.fn = "scalar" -> 512
             [] OTHER -> 512
Acc(e) == IF e.exc # "" THEN {"a function can be evaluated in every precision"} ELSE
  Clause("results are not narrower than the arguments", \A i \in 1..Len(e.ins) : \A j \in 1..Len(e.outs[i]) : R!WideEnough(FALSE, {e.ins[i]}, e.outs[i][j]))
  \cup Clause("results are as accurate as the arguments", \A i \in 1..Len(e.ins) : Within(e.err[i], Lost(e)))
Lin(e) == IF e.exc # "" THEN {"a function can be evaluated in every precision"} ELSE
  Clause("results are not narrower than the arguments", \A i \in 1..Len(e.outs) : R!WideEnough(TRUE, SetOf(e.ins), e.outs[i]))
  \cup Clause("double precision resolves the smallest changes", Within(e.err, 4096))
Layer(e) == IF e.exc # "" THEN {"a layer can be evaluated in every precision"} ELSE
  Clause("parameters have the requested type", SetOf(e.params) = {R!Canon(e.x64, e.param)})
  \cup Clause("the result of a layer has the requested type", R!LayerOut(e.x64, R!Used(e), e.param, e.dtype, e.out))
  \cup Clause("the narrowest type decides the accuracy",
              e.digits = R!Kept(e.x64, R!Used(e) \cup (IF e.dtype = "none" THEN {} ELSE {e.dtype})))
  \cup Clause("results are as accurate as the narrowest type", e.err <= 512)
Identity(e) == IF e.exc # "" THEN {"an identity can be evaluated in every precision"} ELSE
  Clause("results are not narrower than the arguments", \A i \in 1..Len(e.outs) : R!WideEnough(e.x64, {e.type}, e.outs[i]))
  \cup Clause("identities hold to the precision of the arguments", Within(e.err, 1000))
Fails(e) == CASE e.op = "acc" -> Acc(e)
              [] e.op = "ref" -> Lin(e)
              [] e.op = "layer" -> Layer(e)
              [] e.op = "identity" -> Identity(e)
              [] OTHER -> {"unknown event " \o e.op}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
