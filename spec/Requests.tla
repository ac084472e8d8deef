------------------------------ MODULE Requests ------------------------------
(* Which requests the public entry points accept.  A request is a record with *)
(* a field `op`; Reasons(q) is the set of exceptions that the request         *)
(* deserves (empty: the request is valid) and Shape(q) the shape of the       *)
(* result of a valid request (<<-1>>: not specified here).  Optional          *)
(* arguments that are absent are written as <<>> inside a list.               *)
EXTENDS Integers, Sequences, FiniteSets
If(c, x) == IF c THEN {x} ELSE {}
V == "ValueError"
R == "RuntimeError"
T == "TypeError"
Last(s, k) == s[Len(s) - k + 1]                       \* k-th from the end
Front(s, k) == SubSeq(s, 1, Len(s) - k)
HasLast(s, n) == Len(s) >= 1 /\ Last(s, 1) = n
Prefix(s, k) == SubSeq(s, 1, IF k < Len(s) THEN (IF k < 0 THEN 0 ELSE k) ELSE Len(s))
Families == {"bernstein", "chebyshev", "fourier", "gaussian"}
Kinds == {"shifted", "damped", "cuspless"}
Norms == {"racah", "schmidt", "4pi", "orthonormal"}
IsSquare(n) == \E k \in 1..n : k * k = n
FeatureShape(s) == Len(s) >= 3 /\ Last(s, 3) \in {1, 2} /\ IsSquare(Last(s, 2))
Given(a) == Len(a) > 0                                 \* optional argument: <<>> or <<value>>

Min2N(a, b) == IF a < b THEN a ELSE b
Broadcastable(a, b) == \A k \in 1..Min2N(Len(a), Len(b)) : Last(a, k) = Last(b, k) \/ 1 \in {Last(a, k), Last(b, k)}

\* ---- gathers and reductions ------------------------------------------------------
\* a list is <<shape>> or <<>>
OneKind(q) == If(~Given(q.adj) /\ ~Given(q.dst), R) \cup If(Given(q.adj) /\ Given(q.dst), R)
GatherSrc(q) ==
  IF OneKind(q) # {} THEN OneKind(q)
  ELSE IF Given(q.adj) THEN
    LET i == q.adj[1] IN
    If(Len(i) < 2, V) \cup If(Len(q.x) < Len(i) - 1, V) \cup If(Prefix(q.x, Len(i) - 2) # Prefix(i, Len(i) - 2), V)
  ELSE LET i == q.dst[1] IN
    If(Len(i) < 1, V) \cup If(Len(q.x) < Len(i), V) \cup If(Prefix(q.x, Len(i) - 1) # Prefix(i, Len(i) - 1), V)
GatherShape(q) == LET i == IF Given(q.adj) THEN q.adj[1] ELSE q.dst[1]
                      k == IF Given(q.adj) THEN Len(i) - 1 ELSE Len(i)
                  IN i \o SubSeq(q.x, k + 1, Len(q.x))
Reduce(q) ==
  OneKind(q) \cup If(q.dtype \in {"bool", "complex64"}, T) \cup
  (IF OneKind(q) # {} THEN {}
   ELSE LET i == IF Given(q.adj) THEN q.adj[1] ELSE q.dst[1] IN
        If(~q.sized, T) \cup If(Len(q.x) < Len(i), V) \cup If(Prefix(q.x, Len(i)) # i, V))
\* dense: the last axis of the list is reduced; sparse: replaced by the segments
ReduceShape(q) ==
  LET i == IF Given(q.adj) THEN q.adj[1] ELSE q.dst[1]
      rest == SubSeq(q.x, Len(i) + 1, Len(q.x)) IN
  IF q.keep THEN (IF Given(q.adj) THEN Front(i, 1) \o <<1>> ELSE i) \o rest
  ELSE IF Given(q.adj) THEN Front(i, 1) \o rest ELSE Front(i, 1) \o <<q.segments>> \o rest

Reasons(q) ==
  CASE q.op = "set"      -> If(q.num < 1, V) \cup If(q.fn = "reciprocal" /\ q.kind \notin Kinds, V)
    [] q.op = "mapping"  -> If(q.kind \notin Kinds, V)
    [] q.op = "cutoff"   -> If(q.c <= 0, V)
    [] q.op = "switch"   -> If(q.a >= q.b, V)
    [] q.op = "basis"    -> If(~HasLast(q.x, 3), V) \cup If(q.retcut /\ ~q.cut, V)
    [] q.op = "harm"     -> If(~HasLast(q.x, 3), V) \cup If(q.L < 0, V) \cup If(q.norm \notin Norms, V)
    [] q.op = "solid"    -> If(~HasLast(q.x, 3), V) \cup If(q.L < 0, V)
    [] q.op = "totensor" -> If(q.d < 0, V) \cup If(q.d >= 0 /\ ~HasLast(q.x, 2 * q.d + 1), V) \cup If(q.norm \notin Norms, V)
    [] q.op = "toirreps" -> If(q.d < 0, V) \cup If(q.norm \notin Norms, V) \cup
                            If(q.d = 0 /\ ~HasLast(q.x, 1), V) \cup
                            If(q.d > 0 /\ ~(Len(q.x) >= q.d /\ \A k \in 1..q.d : Last(q.x, k) = 3), V)
    [] q.op = "cg"       -> If(q.l[1] < 0 \/ q.l[2] < 0 \/ q.l[3] < 0, V)
    [] q.op \in {"wigner", "euler"} ->
         If(~(Len(q.x) >= 2 /\ Last(q.x, 1) = 3 /\ Last(q.x, 2) = 3), V) \cup If(q.op = "wigner" /\ q.L < 0, V)
    [] q.op = "quad"     -> If(Given(q.precision) = Given(q.num), V)
    [] q.op = "pairwise" -> If(q.n < 1, V)
    [] q.op = "tosparse" -> If(Len(q.x) < 2, V)
    [] q.op = "todense"  -> If(q.x # q.y, V)
    [] q.op = "gather"   -> GatherSrc(q)
    [] q.op = "reduce"   -> Reduce(q)
    [] q.op = "softmax"  -> Reduce([q EXCEPT !.dtype = "float32"]) \cup If(q.dtype # "float32", V) \cup If(Given(q.mask) /\ q.mask[1] # q.x, V)
    [] q.op = "tensor"   -> If(~FeatureShape(q.x) \/ ~FeatureShape(q.y), V) \cup
                            (IF FeatureShape(q.x) /\ FeatureShape(q.y) THEN
                               If(\E k \in 0..9 : (k + 1) * (k + 1) = Last(q.x, 2) /\ \E j \in 0..9 : (j + 1) * (j + 1) = Last(q.y, 2) /\ q.L > k + j, V)
                               \cup If(Last(q.x, 1) # Last(q.y, 1), V) ELSE {})
    [] q.op = "dense"    -> If(~FeatureShape(q.x), V)
    [] q.op = "act"      -> If(Len(q.x) < 3, V)
    [] q.op = "embed"    -> If(q.dtype \notin {"int32", "uint8"}, V)
    [] q.op = "heads"    -> If(q.F % q.heads # 0, V) \cup If(q.pos /\ ~q.basis, T) \cup If(q.bq # q.bk, V)
    [] q.op = "message"  -> OneKind(q) \cup (IF OneKind(q) # {} THEN {} ELSE
                            If(q.bb # (IF Given(q.adj) THEN q.adj[1] ELSE q.dst[1]), V))
    [] q.op = "weights"  -> If(~Broadcastable(q.w, <<3, 2, 1, 4, 2>>), V)
    [] q.op = "gatherdst" -> OneKind(q)                \* source indices do not matter here
    [] q.op = "kernel"   -> If(Len(q.x) # 7, V) \cup If(q.mode \notin {"fan_in", "fan_out", "fan_avg"}, V)
                            \cup If(q.dist \notin {"normal", "uniform", "truncated_normal"}, V)
                            \cup If(Len(q.x) = 7 /\ \E k \in {1, 3, 5} : q.x[k] \notin {1, 2}, V)
    [] q.op = "square"   -> LET top == CHOOSE d \in {q.ds[i] : i \in 1..Len(q.ds)} : \A i \in 1..Len(q.ds) : q.ds[i] <= d IN
                            If(q.max < top, V) \cup If(q.even, V) \cup If(q.short, V) \cup If(q.short, T)
    [] q.op = "derivs"   -> If(q.n < 0, V)

Shape(q) ==
  CASE q.op = "set"      -> q.x \o <<q.num>>
    [] q.op \in {"mapping", "cutoff", "switch"} -> q.x
    [] q.op = "basis"    -> Front(q.x, 1) \o <<1, (q.L + 1) * (q.L + 1), q.num>>
    [] q.op \in {"harm", "solid"} -> Front(q.x, 1) \o <<(q.L + 1) * (q.L + 1)>>
    [] q.op = "totensor" -> Front(q.x, 1) \o (IF q.d = 0 THEN <<1>> ELSE [k \in 1..q.d |-> 3])
    [] q.op = "toirreps" -> Front(q.x, IF q.d = 0 THEN 1 ELSE q.d) \o <<2 * q.d + 1>>
    [] q.op = "cg"       -> [k \in 1..3 |-> (q.l[k] + 1) * (q.l[k] + 1)]
    [] q.op = "wigner"   -> Front(q.x, 2) \o <<(q.L + 1) * (q.L + 1), (q.L + 1) * (q.L + 1)>>
    [] q.op = "euler"    -> Front(q.x, 2)
    [] q.op = "pairwise" -> <<q.n, IF q.self THEN q.n - 1 ELSE q.n>>
    [] q.op = "gather"   -> GatherShape(q)
    [] q.op = "reduce"   -> ReduceShape(q)
    [] q.op = "softmax"  -> q.x
    [] q.op \in {"act"}  -> q.x
    [] q.op = "embed"    -> q.x \o <<1, 1, 4>>
    [] q.op = "dense"    -> Front(q.x, 1) \o <<5>>
    [] q.op = "kernel"   -> q.x
    [] OTHER -> <<-1>>
=============================================================================
