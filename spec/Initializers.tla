---------------------------- MODULE Initializers ----------------------------
(* Variance-scaling initialisation of tensor-product kernels.  A kernel has   *)
(* one weight per feature for every triple of slots (s1, s2, s3).             *)
EXTENDS Features
Allowed(t1, s1, t2, s2, t3, s3) == Couples(t1, s1, t2, s2, t3, s3)
FanIn(t1, t2, t3, s3) == Cardinality({p \in SlotsOf(t1) \X SlotsOf(t2) : Allowed(t1, p[1], t2, p[2], t3, s3)})
FanOut(t1, s1, t2, s2, t3) == Cardinality({s3 \in SlotsOf(t3) : Allowed(t1, s1, t2, s2, t3, s3)})
Modes == {"fan_in", "fan_out", "fan_avg"}
Dists == {"truncated_normal", "normal", "uniform"}
\* twice the denominator of the variance (an integer)
Denom2(mode, t1, s1, t2, s2, t3, s3) ==
  CASE mode = "fan_in"  -> 2 * FanIn(t1, t2, t3, s3)
    [] mode = "fan_out" -> 2 * FanOut(t1, s1, t2, s2, t3)
    [] mode = "fan_avg" -> FanIn(t1, t2, t3, s3) + FanOut(t1, s1, t2, s2, t3)
\* named initializers: scale (in tenths), mode, distribution
Named(n) ==
  CASE n \in {"tensor_glorot_uniform", "tensor_xavier_uniform"} -> <<10, "fan_avg", "uniform">>
    [] n \in {"tensor_glorot_normal", "tensor_xavier_normal"}   -> <<10, "fan_avg", "truncated_normal">>
    [] n = "tensor_lecun_uniform" -> <<10, "fan_in", "uniform">>
    [] n = "tensor_lecun_normal"  -> <<10, "fan_in", "truncated_normal">>
    [] n \in {"tensor_he_uniform", "tensor_kaiming_uniform"}    -> <<20, "fan_in", "uniform">>
    [] n \in {"tensor_he_normal", "tensor_kaiming_normal"}      -> <<20, "fan_in", "truncated_normal">>
    [] n = "layer" -> <<10, "fan_in", "truncated_normal">>
Names == {"tensor_glorot_uniform", "tensor_xavier_uniform", "tensor_glorot_normal", "tensor_xavier_normal",
          "tensor_lecun_uniform", "tensor_lecun_normal", "tensor_he_uniform", "tensor_kaiming_uniform",
          "tensor_he_normal", "tensor_kaiming_normal", "layer"}
=============================================================================
