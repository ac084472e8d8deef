------------------------------ MODULE Precision ------------------------------
(* Floating-point types of mixed computations and how accurate their results  *)
(* have to be.  Errors are counted in units of the roundoff 2^-Digits.        *)
EXTENDS Integers, FiniteSets, Sequences
Types == {"bfloat16", "float16", "float32", "float64"}
Digits(t) == CASE t = "bfloat16" -> 8 [] t = "float16" -> 11 [] t = "float32" -> 24 [] t = "float64" -> 53
\* every value of type a is a value of type b (neither half type contains the other)
Leq(a, b) == a = b \/ b = "float64" \/ (b = "float32" /\ a # "float64")
Join(a, b) == CHOOSE m \in Types : Leq(a, m) /\ Leq(b, m) /\ \A n \in Types : Leq(a, n) /\ Leq(b, n) => Leq(m, n)
RECURSIVE JoinAll(_)
JoinAll(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE Join(x, JoinAll(S \ {x}))
\* without the x64 flag there is no double precision
Canon(x64, t) == IF ~x64 /\ t = "float64" THEN "float32" ELSE t
\* results of plain functions are never narrower than their arguments
WideEnough(x64, ins, out) == (ins = {} \/ Leq(JoinAll({Canon(x64, t) : t \in ins}), out)) /\ out = Canon(x64, out)
\* layers: an explicit type is the type of the result
LayerOut(x64, ins, param, dtype, out) ==
  IF dtype # "none" THEN out = Canon(x64, dtype) ELSE WideEnough(x64, ins \cup {param}, out)
\* the number of digits that survive everywhere
Kept(x64, ts) == LET D == {Digits(Canon(x64, t)) : t \in ts} IN CHOOSE d \in D : \A e \in D : d <= e
Kinds == {"Dense", "Dense1", "Tensor", "TensorMixed", "Tensor1", "FusedTensor", "FusedTensor1", "FusedTensorMixed", "TensorDense",
          "TensorDenseFused", "MessagePass", "MessagePassFused", "SelfAttention", "SelfAttentionPlain", "MultiHeadAttention", "Embed"}
Inputs(kind) == CASE kind = "Embed" -> 0
                  [] kind \in {"Dense", "Dense1", "TensorDense", "TensorDenseFused", "SelfAttentionPlain"} -> 1
                  [] OTHER -> 2
Used(r) == {r.param} \cup (IF Inputs(r.kind) > 0 THEN {r.in1} ELSE {}) \cup (IF Inputs(r.kind) > 1 THEN {r.in2} ELSE {})
=============================================================================
