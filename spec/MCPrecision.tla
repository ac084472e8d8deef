----------------------------- MODULE MCPrecision -----------------------------
(* All requests for a layer: types of inputs and parameters, explicit type,   *)
(* and the x64 flag.  The types form a join semilattice.                      *)
EXTENDS Precision, TLC, Json
VARIABLE r
Init == r \in {q \in [kind : Kinds, x64 : BOOLEAN, in1 : Types, in2 : Types, param : Types, dtype : Types \cup {"none"}] :
               /\ q.x64 \/ "float64" \notin {q.in1, q.in2}
               /\ Inputs(q.kind) = 2 \/ q.in2 = q.in1
               /\ Inputs(q.kind) > 0 \/ q.in1 = "float32"}
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
ASSUME \A a, b, c \in Types :
  /\ Join(a, a) = a /\ Join(a, b) = Join(b, a) /\ Join(a, Join(b, c)) = Join(Join(a, b), c)
  /\ Leq(a, Join(a, b)) /\ (Leq(a, b) => Join(a, b) = b /\ Digits(a) <= Digits(b))
  /\ Join("float16", "bfloat16") = "float32"
  /\ Canon(FALSE, Join(a, b)) = Join(Canon(FALSE, a), Canon(FALSE, b))
\* a result of the right type keeps all digits that its inputs have in common
Lossless == \A out \in Types : LayerOut(r.x64, IF r.kind = "Embed" THEN {} ELSE Used(r), r.param, r.dtype, out)
  => Digits(out) >= Kept(r.x64, Used(r) \cup (IF r.dtype = "none" THEN {} ELSE {r.dtype}))
Decided == Cardinality({out \in Types : LayerOut(r.x64, Used(r), r.param, r.dtype, out)}) >= 1
Emit == PrintT(ToJson(r))
=============================================================================
