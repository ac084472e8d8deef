----------------------------- MODULE FeatureOps -----------------------------
(* Exact arithmetic on features: a value is a function from components        *)
(* <<p, l, m>> of a type to integers.                                         *)
EXTENDS Features

Comps(t) == UNION {{<<s[1], s[2], m>> : m \in (-s[2])..s[2]} : s \in SlotsOf(t)}
Slot(c) == <<c[1], c[2]>>
Zero(t) == [c \in Comps(t) |-> 0]
\* the component of t with the parity, degree and order of component c of u
Source(u, c, t) == LET s == SlotFor(t, ParityOf(u, Slot(c)), c[2]) IN <<s[1], s[2], c[3]>>
Holds(u, c, t) == HasSlot(t, ParityOf(u, Slot(c)), c[2])
ChangeTo(t, x, u) == [c \in Comps(u) |-> IF Holds(u, c, t) THEN x[Source(u, c, t)] ELSE 0]
AddTo(t, x, u, y) == LET w == AddType(t, u) IN
  [c \in Comps(w) |-> ChangeTo(t, x, w)[c] + ChangeTo(u, y, w)[c]]
Reflect(t, x) == [c \in Comps(t) |-> InvSign(t.P, c[1], c[2]) * x[c]]
\* quarter turn about the z axis: phi |-> phi - 90 degrees (quarterZ); orders m > 0 are
\* cosines and m < 0 sines of |m| phi
Neg(c) == <<c[1], c[2], -c[3]>>
Quarter(t, x) == [c \in Comps(t) |->
  LET k == Abs(c[3]) % 4 s == IF c[3] < 0 THEN -1 ELSE 1 IN
  CASE k = 0 -> x[c] [] k = 2 -> -x[c]
    [] k = 1 -> s * x[Neg(c)] [] k = 3 -> -s * x[Neg(c)]]
\* distinct integers: source number k
Labels(k, t) == [c \in Comps(t) |-> (k + 1) * (1 + c[1] * 31 + c[2] * c[2] + c[2] + c[3])]

\* ---- requests ------------------------------------------------------------------
IsSquare(n) == \E k \in 1..n : k * k = n
GoodShape(s) == /\ Len(s) >= 3
                /\ s[Len(s) - 2] \in {1, 2}
                /\ IsSquare(s[Len(s) - 1])
Addable(a, b) == /\ GoodShape(a) /\ GoodShape(b) /\ Len(a) = Len(b)
                 /\ a[Len(a)] = b[Len(b)]
                 /\ \A i \in 1..(Len(a) - 3) : a[i] = b[i]
Turnable(a, d) == /\ GoodShape(a) /\ Len(d) >= 2
                  /\ d[Len(d)] = a[Len(a) - 1] /\ d[Len(d) - 1] = a[Len(a) - 1]
                  /\ Len(d) > 2 => SubSeq(d, 1, Len(d) - 2) = SubSeq(a, 1, Len(a) - 3)
=============================================================================
