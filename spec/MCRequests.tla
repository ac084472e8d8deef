----------------------------- MODULE MCRequests -----------------------------
(* All small requests of every entry point.                                   *)
EXTENDS Requests, Json, TLC
VARIABLES q, verdict
vars == <<q, verdict>>
Xs == {<<>>, <<3>>, <<2, 3>>}
Vecs == {<<3>>, <<2, 3>>, <<3, 3>>, <<2, 1, 3>>, <<1>>, <<2>>, <<4>>, <<3, 2>>, <<3, 1>>, <<3, 4>>}
Feats == {<<1, 1, 2>>, <<2, 4, 2>>, <<1, 4, 3>>, <<3, 1, 4, 2>>, <<3, 4, 2>>, <<1, 3, 2>>, <<1, 5, 2>>, <<2, 9, 2>>,
          <<4, 2>>, <<2>>, <<0, 4, 2>>, <<1, 2, 2>>, <<1, 8, 2>>}
Lists == {<<4>>, <<2, 3>>, <<2, 2, 3>>, <<3, 3>>, <<3, 2, 2>>}
Opt(S) == {<<>>} \cup {<<s>> : s \in S}
Data == {<<2>>, <<4>>, <<2, 3>>, <<2, 4>>, <<3, 2>>, <<2, 2, 3>>, <<2, 3, 5>>, <<4, 5>>, <<3, 3>>, <<3, 2, 2, 1>>, <<2, 2, 2>>}
Red(o) == [op : {o}, x : Data, adj : Opt(Lists \ {<<4>>}), dst : Opt({<<4>>, <<2, 3>>, <<2, 4>>, <<2, 2, 2>>}), sized : BOOLEAN,
           keep : BOOLEAN, segments : {3}, dtype : {"float32", "int32", "bool", "complex64"}]
Domain(o) ==
  CASE o = "set" -> [op : {o}, fn : {"basic", "reciprocal", "exponential"}, fam : Families, num : -1..2,
                     kind : Kinds \cup {"linear", ""}, x : Xs]
    [] o = "mapping" -> [op : {o}, kind : Kinds \cup {"linear", "", "Shifted"}, x : Xs]
    [] o = "cutoff" -> [op : {o}, fam : {"smooth", "cosine"}, c : {-20, -1, 0, 1, 50}, x : Xs]
    [] o = "switch" -> [op : {o}, a : {-10, 0, 10}, b : {-10, 0, 1, 10}, x : Xs]
    [] o = "basis" -> [op : {o}, x : Vecs, L : {0, 1}, num : {2}, cut : BOOLEAN, retcut : BOOLEAN]
    [] o = "harm" -> [op : {o}, x : Vecs, L : {-2, -1, 0, 2}, norm : Norms \cup {"Racah", "none", ""}]
    [] o = "solid" -> [op : {o}, x : Vecs, L : {-2, -1, 0, 2}]
    [] o = "totensor" -> [op : {o}, x : Vecs \cup {<<5>>, <<2, 5>>, <<2, 7>>}, d : -1..3, norm : {"racah", "4pi", "no"}]
    [] o = "toirreps" -> [op : {o}, x : Vecs \cup {<<>>, <<2, 3, 3>>, <<3, 3, 3>>, <<3, 3, 2>>, <<1, 1>>}, d : -1..3, norm : {"racah", "4pi", "no"}]
    [] o = "cg" -> [op : {o}, l : (-1..1) \X (-1..1) \X (-1..2)]
    [] o \in {"wigner", "euler"} -> [op : {o}, x : {<<3, 3>>, <<2, 3, 3>>, <<3, 3, 3>>, <<3>>, <<3, 2>>, <<2, 3>>, <<3, 3, 1>>, <<9>>, <<4, 4>>}, L : {-1, 0, 1}]
    [] o = "quad" -> [op : {o}, kind : {"lebedev", "delley"}, precision : Opt({3, 5}), num : Opt({50, 100})]
    [] o = "pairwise" -> [op : {o}, n : -1..3, self : BOOLEAN, sparse : BOOLEAN]
    [] o = "tosparse" -> [op : {o}, x : {<<2, 3>>, <<2, 2, 3>>, <<4>>, <<>>}]
    [] o = "todense" -> [op : {o}, x : {<<4>>, <<2, 3>>, <<3>>, <<1, 4>>}, y : {<<4>>, <<2, 3>>, <<3>>, <<1, 4>>}]
    [] o = "gather" -> [op : {o}, x : Data, adj : Opt(Lists), dst : Opt({<<>>, <<4>>, <<2, 3>>, <<3, 4>>, <<2, 2, 2>>})]
    [] o = "reduce" -> {r \in [op : {o}, mode : {"sum", "min", "max"}, x : Data, adj : Opt(Lists \ {<<4>>}), dst : Opt({<<4>>, <<2, 3>>, <<2, 4>>, <<2, 2, 2>>}), sized : BOOLEAN,
           keep : BOOLEAN, segments : {3}, dtype : {"float32", "int32", "bool", "complex64"}] : r.mode = "sum" \/ r.dtype # "complex64"}
    [] o = "softmax" -> [op : {o}, x : Data, adj : Opt(Lists \ {<<4>>}), dst : Opt({<<4>>, <<2, 3>>, <<2, 2, 2>>}), sized : BOOLEAN,
                         keep : {TRUE}, segments : {3}, dtype : {"float32", "int32"}, mask : Opt({<<2, 3>>, <<4>>, <<2, 1>>, <<2, 2, 3>>})]
    [] o = "tensor" -> [op : {o}, fused : BOOLEAN, x : Feats, y : Feats, L : 0..3]
    [] o = "dense" -> [op : {o}, x : Feats]
    [] o = "act" -> [op : {o}, fn : {"relu", "silu", "gelu", "bent_identity"}, x : {<<1, 1, 2>>, <<2, 4, 2>>, <<3, 1, 4, 2>>, <<4, 2>>, <<2>>, <<>>}]
    [] o = "embed" -> [op : {o}, x : Xs, dtype : {"int32", "uint8", "float32", "bool"}]
    [] o = "heads" -> [op : {o}, F : {4, 6}, heads : {1, 2, 3, 4}, pos : BOOLEAN, basis : BOOLEAN, bq : {<<>>, <<2>>}, bk : {<<>>, <<2>>, <<1>>}]
    [] o = "message" -> [op : {o}, adj : Opt({<<3, 2>>}), dst : Opt({<<4>>}), sized : BOOLEAN, bb : {<<3, 2>>, <<4>>, <<3, 1>>}]
    [] o = "weights" -> [op : {o}, w : {<<>>, <<1>>, <<2>>, <<3>>, <<4, 2>>, <<3, 2>>, <<4, 1>>, <<1, 3>>, <<3, 2, 1, 1, 1>>, <<3, 2, 1, 1, 2>>,
                                        <<3, 1, 1, 4, 2>>, <<1, 2, 1, 1, 1>>, <<3, 2, 1, 3, 1>>, <<2, 2, 1, 1, 1>>, <<3, 3, 1, 4, 2>>, <<3, 2, 1, 4, 3>>},
                         sparse : {FALSE}]
    [] o = "gatherdst" -> [op : {o}, adj : Opt({<<3, 2>>}), dst : Opt({<<4>>, <<1>>, <<2, 2>>}), src : Opt({<<4>>, <<1>>, <<2, 2>>})]
    [] o = "kernel" -> [op : {o}, x : {<<1, 1, 1, 1, 1, 1, 2>>, <<2, 2, 2, 2, 2, 2, 2>>, <<1, 2, 2, 1, 1, 2, 3>>, <<3, 1, 1, 1, 1, 1, 2>>,
                                       <<1, 1, 0, 1, 1, 1, 2>>, <<1, 1, 1, 1, 4, 1, 2>>, <<1, 1, 1, 1, 1, 2>>, <<1, 1, 1, 1, 1, 1, 2, 2>>, <<2>>},
                        mode : {"fan_in", "fan_out", "fan_avg", "fan", ""}, dist : {"normal", "uniform", "truncated_normal", "gauss"}]
    [] o = "square" -> [op : {o}, ds : {<<0>>, <<1>>, <<0, 2>>}, max : 0..3, even : BOOLEAN, short : BOOLEAN]
    [] o = "derivs" -> [op : {o}, n : -2..4]
Ops == {"set", "mapping", "cutoff", "switch", "basis", "harm", "solid", "totensor", "toirreps", "cg", "wigner", "euler", "quad",
        "pairwise", "tosparse", "todense", "gather", "reduce", "softmax", "tensor", "dense", "act", "embed", "heads", "message", "weights", "gatherdst",
        "kernel", "square", "derivs"}
Init == \E o \in Ops : q \in Domain(o) /\ verdict = {"pending"}
Decide == verdict = {"pending"} /\ verdict' = Reasons(q) /\ UNCHANGED q
Spec == Init /\ [][Decide]_vars
Decided == verdict # {"pending"}
Classes == Decided => verdict \subseteq {V, R, T}
\* a valid request has a result, whose dimensions are not negative
HasResult == Decided /\ verdict = {} => LET s == Shape(q) IN s = <<-1>> \/ \A i \in 1..Len(s) : s[i] >= 0
\* every entry point has both valid and invalid requests
ASSUME \A o \in Ops : \E a \in Domain(o) : Reasons(a) = {}
ASSUME \A o \in Ops : \E a \in Domain(o) : Reasons(a) # {}
Emit == Decided => PrintT(ToJson([q |-> q, ok |-> verdict = {}]))
=============================================================================
