-------------------------- MODULE TraceGraphLayers --------------------------
(* Recorded results of layers on descriptions of a graph (see GraphRewrite),  *)
(* per node in fixed point: four projections of the node's output and its     *)
(* norm, in units of half a millionth of the largest one.                     *)
EXTENDS TraceBase
Tol == 60
Same(u, v) == \A k \in 1..Len(u) : AbsI(u[k] - v[k]) <= Tol
SameAll(y, z) == Len(y) = Len(z) /\ \A i \in 1..Len(y) : Same(y[i], z[i])
Differ(u, v) == \E k \in 1..Len(u) : AbsI(u[k] - v[k]) > Tol

\* y is the result with labelling perm, y0 the one with the original labels
Labelled(y0, perm, y) == \A i \in 1..Len(perm) : Same(y[i], y0[perm[i] + 1])
Rewrite(e) ==
  UNION {Clause("another description of the same graph gives the same result: "
                  \o (IF k = 1 THEN "base" ELSE e.steps[k - 1]),
                Labelled(e.y0, e.out[k].perm, e.out[k].y)) : k \in 1..Len(e.out)}

In(e, d, s) == \E k \in 1..Len(e.base) : e.base[k] = <<d, s>>
HasIn(e, d) == \E k \in 1..Len(e.base) : e.base[k][1] = d
Targets(e, v) == {d \in 0..(e.n - 1) : In(e, d, v)}
\* which nodes may, and which must, react to a change at node v
May(e, w, v) ==
  LET own == IF HasIn(e, v) THEN {v} ELSE {}
  IN CASE w \in {"xk", "rk"} -> Targets(e, v)
       [] w \in {"xq", "rq"} -> own
       [] w = "x" -> IF e.kind = "mp" THEN Targets(e, v) ELSE Targets(e, v) \cup own
       [] w = "r" -> Targets(e, v) \cup own
\* (the weight of one of several sources may be negligible in an attention)
Sole(e, v) == {d \in Targets(e, v) : e.kind = "mp" \/ \A k \in 1..Len(e.base) :
                                       e.base[k][1] = d => e.base[k][2] = v}
Must(e, w, v) ==
  CASE w \in {"xk", "x"} -> Sole(e, v)
    [] w = "rk" -> IF e.relv THEN Sole(e, v) ELSE {}
    [] w = "r" -> IF e.relv THEN Sole(e, v) \ {v} ELSE {}
    [] OTHER -> {}
Locality(e) ==
  UNION {LET o == e.out[k] IN
         Clause("a node depends only on itself and the sources of its edges",
                \A i \in 1..e.n : (i - 1) \notin May(e, o.what, o.node) => Same(o.y[i], e.y0[i]))
         \cup Clause("a node depends on the sources of its edges",
                \A i \in 1..e.n : (i - 1) \in Must(e, o.what, o.node) => Differ(o.y[i], e.y0[i]))
         : k \in 1..Len(e.out)}

AsSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
IsolatedNodes(e) ==
  Clause("a node without edges gets a neutral output",
         \A k \in 1..Len(e.out) : ~HasIn(e, e.out[k].node) =>
            AsSet(e.out[k].occ) \subseteq (IF e.obias THEN {<<0, 0>>} ELSE {}))
  \cup Clause("nodes without edges get the same output",
         \A i, j \in 1..e.n : ~HasIn(e, i - 1) /\ ~HasIn(e, j - 1) => Same(e.y0[i], e.y0[j]))

Sum2(u, v) == [i \in 1..Len(u) |-> [k \in 1..4 |-> u[i][k] + v[i][k]]]
Head4(y) == [i \in 1..Len(y) |-> [k \in 1..4 |-> y[i][k]]]
Parts(e) ==
  (IF e.kind = "mp" THEN
     Clause("messages of different edges are summed",
            Len(e.out) = 2 => SameAll(Head4(e.y0), Sum2(e.out[1], e.out[2])))
     \cup Clause("a repeated edge sends its message twice",
            SameAll(Head4(e.twice), Sum2(e.y0, e.y0)))
   ELSE Clause("attention weights are relative: repeating all edges changes nothing",
            SameAll(e.twice, e.y0)))
  \cup UNION {Clause("a masked entry is the same as no entry: " \o e.masked[k].by,
                     SameAll(e.masked[k].y, e.out[1])) : k \in 1..Len(e.masked)}
Implicit(e) ==
  UNION {Clause("an inferred argument equals the explicit one: " \o e.out[k].by,
                SameAll(e.out[k].y, e.y0)) : k \in 1..Len(e.out)}
  \cup Clause("segments without entries are neutral",
              (e.kind = "mp" => \A i \in 1..Len(e.extra) : e.extra[i] = 0)
              /\ \A i \in 1..Len(e.extra), j \in 1..Len(e.iso) : AbsI(e.extra[i] - e.iso[j]) <= Tol)
Cross(e) ==
  Clause("attention has one output per query node", Len(e.y0) = e.nq) \cup
  UNION {Clause("another description of the same edges between two sets of nodes gives the same result: " \o e.out[k].by,
                SameAll(e.out[k].y, e.y0)) : k \in 1..Len(e.out)}
Batch(e) == Clause("batch elements do not interact",
                   \A k \in 1..Len(e.one) : SameAll(e.one[k], e.all[k]))
Fails(e) == IF e.exc # "" THEN {"a valid layer call raised"} ELSE
  CASE e.op = "rewrite" -> Rewrite(e)
    [] e.op = "locality" -> Locality(e)
    [] e.op = "isolated" -> IsolatedNodes(e)
    [] e.op = "grads" -> Clause("values and derivatives are finite", e.finite)
    [] e.op = "parts" -> Parts(e)
    [] e.op = "implicit" -> Implicit(e)
    [] e.op = "cross" -> Cross(e)
    [] e.op = "batch" -> Batch(e)
    [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
