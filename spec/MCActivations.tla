--------------------------- MODULE MCActivations ---------------------------
(* Walk of the scalar input of every activation function; identities of the   *)
(* specified functions and gates.  The states are the calls to replay.        *)
EXTENDS Activations, Json
CONSTANT Step
VARIABLES name, par, x
vars == <<name, par, x>>
Pars(n) == CASE n = "leaky_relu" -> {0, 100, 2000, 15000} [] n = "elu" -> {U, 2500, 15000}
             [] n = "celu" -> {U, 2500, 15000} [] OTHER -> {0}
Init == name \in Names /\ par \in Pars(name) /\ x = -8 * U
Next == x + Step <= 8 * U /\ x' = x + Step /\ UNCHANGED <<name, par>>
Spec == Init /\ [][Next]_vars
A(t) == Act(name, par, t)
Odd == name \in {"hard_tanh", "soft_sign"} => Near(A(-x), -A(x), 1)
\* the even part: s(x) - s(-x) = x
Half == name \in {"relu", "silu", "swish", "gelu_approx", "gelu_exact", "shifted_softplus", "hard_silu", "hard_swish"}
        => Near(A(x) - A(-x), x, 20)
Twice == name = "bent_identity" => Near(A(x) - A(-x), 2 * x, 12)
Increasing == name \in {"relu", "leaky_relu", "elu", "selu", "celu", "shifted_softplus", "hard_tanh", "soft_sign",
                        "relu6", "bent_identity"} /\ x >= -8 * U + Step => A(x) >= A(x - Step) - 6
ZeroIsFixed == Near(A(0), 0, 2)
NoFlip == x # 0 => (IF x > 0 THEN A(x) >= -6 ELSE A(x) <= 6)
Asymptote == /\ name \in {"relu", "silu", "swish", "gelu_approx", "gelu_exact", "mish_fast", "mish_exact", "serf",
                          "hard_silu", "hard_swish"} => Near(A(8 * U), 8 * U, 40) /\ Near(A(-8 * U), 0, 40)
             /\ name \in {"elu", "celu"} => Near(A(-8 * U), -par, IF name = "celu" THEN 80 ELSE 10)
GateLimit == \A g \in GateZero(name, par) : \A t \in {-1000, 1000} :
  name \notin {"relu", "relu6", "leaky_relu", "elu", "celu", "selu", "hard_tanh"} => Near(Gate(name, par, t), g, 1200)
Slope == name \in {"leaky_relu"} /\ x < 0 => Near(A(x) - A(x + Step), -RDiv(par * (Step \div 10), U \div 10), 20) \/ x + Step > 0
Emit == x = 0 => PrintT(ToJson([name |-> name, par |-> par]))
=============================================================================
