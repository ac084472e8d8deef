---------------------------- MODULE Activations ----------------------------
(* Activation functions of equivariant features, in fixed point.  An          *)
(* activation s acts on the scalar channel (even parity, degree 0) as the     *)
(* ordinary function s(x); every channel (that one included) is multiplied    *)
(* by the gate s(x)/x of its own batch element and feature.                   *)
EXTENDS FixedMath, TLC
LN == 6931
\* ln(1 + y), 0 <= y <= 1
FLog1p(y) == LET s == RDiv(y * U, 2 * U + y)
                 q == FMul(s, s)
             IN 2 * FMul(s, U + RDiv(q, 3) + RDiv(FMul(q, q), 5) + RDiv(FMul(q, FMul(q, q)), 7))
FSoftplus(x) == (IF x > 0 THEN x ELSE 0) + FLog1p(FExpNeg(FAbs(x)))
FTanh(x) == LET e == FExpNeg(2 * FAbs(x))
                t == RDiv((U - e) * U, U + e)
            IN IF x >= 0 THEN t ELSE -t
\* Abramowitz and Stegun 7.1.26
FErf(x) ==
  LET a == FAbs(x)
      t == RDiv(U * U, U + RDiv(3276 * a, U))
      p == FMul(t, 2548 + FMul(t, -2845 + FMul(t, 14214 + FMul(t, -14532 + FMul(t, 10614)))))
      v == IF a > 28000 THEN U ELSE U - FMul(p, FExpNeg(FMul(a, a)))
  IN IF x >= 0 THEN v ELSE -v
AMin(a, b) == IF a < b THEN a ELSE b
AMax(a, b) == IF a > b THEN a ELSE b
Mul10(a, b) == RDiv(RDiv(a, 10) * b, U \div 10)     \* for |a * b| up to 2 * 10^10 units

Names == {"relu", "leaky_relu", "elu", "selu", "celu", "silu", "swish", "gelu_approx", "gelu_exact", "mish_fast",
          "mish_exact", "serf", "shifted_softplus", "hard_tanh", "soft_sign", "relu6", "hard_silu", "hard_swish",
          "bent_identity"}
Parameterised == {"leaky_relu", "elu", "celu"}
\* s(x), |x| <= 8U; par is the parameter (slope or alpha) where there is one
Act(name, par, x) ==
  CASE name = "relu"       -> AMax(x, 0)
    [] name = "leaky_relu" -> IF x >= 0 THEN x ELSE Mul10(x, par)
    [] name = "elu"        -> IF x >= 0 THEN x ELSE Mul10(par, FExpNeg(-x) - U)
    [] name = "selu"       -> Mul10(IF x >= 0 THEN x ELSE FMul(16733, FExpNeg(-x) - U), 10507)
    [] name = "celu"       -> IF x >= 0 THEN x ELSE Mul10(par, FExpNeg(RDiv(-x * U, par)) - U)
    [] name \in {"silu", "swish"} -> Mul10(x, FLogistic(-x))
    [] name = "gelu_approx" -> LET c == Mul10(RDiv(RDiv(x, 10) * RDiv(x, 10), U \div 100), x)
                                   z == RDiv(7979 * (IF FAbs(x) > 4 * U THEN 0 ELSE x + RDiv(RDiv(c, 10) * 447, 1000)), U)
                               IN IF x > 4 * U THEN x ELSE IF x < -4 * U THEN 0 ELSE Mul10(x, RDiv(U + FTanh(z), 2))
    [] name = "gelu_exact" -> Mul10(x, RDiv(U + FErf(RDiv(x * 7071, U)), 2))
    [] name \in {"mish_fast", "mish_exact"} -> Mul10(x, FTanh(FSoftplus(x)))
    [] name = "serf"       -> Mul10(x, FErf(FSoftplus(x)))
    [] name = "shifted_softplus" -> FSoftplus(x) - LN
    [] name = "hard_tanh"  -> AMin(AMax(x, -U), U)
    [] name = "soft_sign"  -> RDiv(x * U, U + FAbs(x))
    [] name = "relu6"      -> AMin(AMax(x, 0), 6 * U)
    [] name \in {"hard_silu", "hard_swish"} ->
         LET h == AMin(AMax(x + 3 * U, 0), 6 * U) IN Mul10(x, RDiv(h, 6))
    [] name = "bent_identity" ->
         x + RDiv(10 * RSqrt(RDiv(x, 10) * RDiv(x, 10) + (U \div 10) * (U \div 10)) - U, 2)
\* the gate: its limit at zero, the quotient elsewhere
GateZero(name, par) ==
  CASE name = "relu" -> {0} [] name = "relu6" -> {0}
    [] name \in {"leaky_relu", "celu", "hard_tanh", "soft_sign", "bent_identity"} -> {U}
    [] name = "elu" -> {par} [] name = "selu" -> {17581}
    [] name \in {"silu", "swish", "gelu_approx", "gelu_exact", "hard_silu", "hard_swish", "shifted_softplus"} -> {U \div 2}
    [] name \in {"mish_fast", "mish_exact"} -> {6000} [] name = "serf" -> {6731}
Gate(name, par, x) == RDiv(Act(name, par, x) * U, x)       \* |x| >= U/2 for useful precision
\* v * s(x)/x
Gated(name, par, x, v) == RDiv(RDiv(Act(name, par, x), 5) * v, RDiv(x, 5))
=============================================================================
