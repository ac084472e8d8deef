------------------------------- MODULE Config --------------------------------
(* The global configuration: current defaults, changed by setters, read by    *)
(* every call that does not pass a value explicitly.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Orders == {"cart", "std"}
Norms  == {"racah", "schmidt", "4pi", "orthonormal"}
Fused  == {"fused", "plain"}
Options == {"order", "norm", "fused"}
Values(o) == CASE o = "order" -> Orders [] o = "norm" -> Norms [] OTHER -> Fused
Default == [order |-> "cart", norm |-> "racah", fused |-> "plain"]

\* What each public call site reads from the configuration.
Light == {"spherical_harmonics", "solid_harmonics", "clebsch_gordan", "clebsch_gordan_for_degrees",
          "tensor_to_irreps", "irreps_to_tensor", "wigner_d", "basis", "exponential_basis",
          "make_square_matrix", "rotate"}
Heavy == {"tensor", "fused_tensor", "tensor_dense", "message_pass", "self_attention",
          "multi_head_attention"}
Reads(s) ==
  CASE s \in {"spherical_harmonics", "tensor_to_irreps", "irreps_to_tensor"} -> {"order", "norm"}
    [] s \in {"solid_harmonics", "clebsch_gordan", "clebsch_gordan_for_degrees", "wigner_d",
              "basis", "exponential_basis", "tensor", "fused_tensor"} -> {"order"}
    [] s \in {"tensor_dense", "message_pass", "self_attention", "multi_head_attention"}
         -> {"order", "fused"}
    [] OTHER -> {}                    \* independent of the configuration

\* "racah" and "schmidt" are two names of one normalization.
Canon(o, v) == IF o = "norm" /\ v = "schmidt" THEN "racah" ELSE v
\* the value in effect: an explicit one wins over the configured one
Effective(cfg, s, ex) == [o \in Reads(s) |-> Canon(o, IF o \in DOMAIN ex THEN ex[o] ELSE cfg[o])]
=============================================================================
