----------------------------- MODULE GenIrreps -----------------------------
(* Prints the harmonic polynomials and the exact representation matrices of  *)
(* the rotations used by the conformance checks (spec/gen/*.json).           *)
EXTENDS Irreps, Json, IOUtils
Rotations == <<
  [name |-> "identity", q |-> <<1, 0, 0, 0>>], [name |-> "quarterZ", q |-> <<1, 0, 0, 1>>],
  [name |-> "cycle3", q |-> <<1, 1, 1, 1>>],   [name |-> "third", q |-> <<1, 1, 1, 0>>],
  [name |-> "halfX", q |-> <<0, 1, 0, 0>>],    [name |-> "halfXY", q |-> <<0, 1, 1, 0>>],
  [name |-> "thirdB", q |-> <<1, 0, 1, 1>>],   [name |-> "halfThird", q |-> <<0, 1, 1, 1>>],
  [name |-> "fifth", q |-> <<2, 0, 1, 0>>],    [name |-> "quarterX", q |-> <<1, 1, 0, 0>>] >>
Content3(M, n) == FoldSet(LAMBDA p, a: Gcd(Abs(M[p[1]][p[2]]), a), n, (1..3) \X (1..3))
VARIABLE k
Init == k = 0
Next == k < Len(Rotations) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Row(l, f) == [a \in 1..(2*l + 1) |-> f[a - l - 1]]
Emit ==
  IF k = 0 THEN
    PrintT(ToJson([kind |-> "harmonics",
      poly |-> [l \in 1..(LMax+1) |-> [a \in 1..(2*l-1) |->
                  LET m == a - l IN
                  SetToSeq({<<e[1], e[2], e[3], Q[l-1][m][e]>> : e \in Supp[l-1][m]})]],
      F |-> [l \in 1..(LMax+1) |-> Row(l-1, F[l-1])],
      norm |-> [l \in 1..(LMax+1) |-> NormNum(l-1)],
      cart |-> [l \in 1..(LMax+1) |-> CartesianOrder(l-1)]]))
  ELSE LET r == Rotations[k]
           M == Quat(r.q[1], r.q[2], r.q[3], r.q[4])
           n == r.q[1]*r.q[1] + r.q[2]*r.q[2] + r.q[3]*r.q[3] + r.q[4]*r.q[4]
           c == Content3(M, n)
           R == [i \in 1..3 |-> [j \in 1..3 |-> M[i][j] \div c]]
           lm == IF n \div c > 3 THEN (IF LMax < 3 THEN LMax ELSE 3) ELSE LMax
       IN PrintT(ToJson([kind |-> "rotation", name |-> r.name, M |-> R, d |-> n \div c,
            num |-> [l \in 1..(lm+1) |-> LET x == Num(R, l-1) IN
                      [a \in 1..(2*l-1) |-> Row(l-1, x[a-l])]]]))
=============================================================================
