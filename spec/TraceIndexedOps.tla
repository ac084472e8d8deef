--------------------------- MODULE TraceIndexedOps ---------------------------
(* Recorded calls of gather_src/gather_dst/indexed_sum/min/max/softmax        *)
(* against module Graph.  A call carries a leading batch axis b.  For sparse  *)
(* lists entry k belongs to node dst[b][k] (dropped if >= n); for dense lists *)
(* entry (i, k) belongs to node i iff where[b][i][k].                         *)
EXTENDS TraceBase, Graph
tN == 0
tMaxLen == 0
INF == 2000000           \* identity of min; -INF: identity of max

Fold(mode, S) ==          \* S: sequence of integers
  CASE mode = "sum" -> SumSeq(S)
    [] mode = "min" -> FoldLeft(LAMBDA a, b: Min2(a, b), INF, S)
    [] mode = "max" -> FoldLeft(LAMBDA a, b: Max2(a, b), -INF, S)

\* sequence of the values (column f) of the entries of node i
SVals(e, b, i, f) ==
  LET ks == SelectSeq([k \in 1..Len(e.dst[b]) |-> k], LAMBDA k: e.dst[b][k] = i)
  IN [j \in 1..Len(ks) |-> e.vals[b][ks[j]][f]]
DVals(e, b, i, f) ==
  LET ks == SelectSeq([k \in 1..Len(e.where[b][i+1]) |-> k], LAMBDA k: e.where[b][i+1][k])
  IN [j \in 1..Len(ks) |-> e.vals[b][i+1][ks[j]][f]]

Reduce(e) ==
  IF e.exc # "" THEN {"indexed reduction raised on valid input"} ELSE
  IF ~e.integral THEN {"indexed reduction of integers is not an integer"} ELSE
  IF e.oshape # e.want THEN {"shape of the reduction"} ELSE
  LET B == 1..Len(e.vals)
      F == 1..e.nf
      nm == e.mode \o " over the entries of each node (" \o e.lay \o ")"
  IN CASE e.lay = "sparse" /\ ~e.keep ->
            Clause(nm, \A b \in B : \A i \in 0..(e.n-1) : \A f \in F :
                         e.out[b][i+1][f] = Fold(e.mode, SVals(e, b, i, f)))
       [] e.lay = "sparse" /\ e.keep ->
            Clause(nm \o " kept per entry", \A b \in B : \A k \in 1..Len(e.dst[b]) : \A f \in F :
                         e.dst[b][k] < e.n =>
                         e.out[b][k][f] = Fold(e.mode, SVals(e, b, e.dst[b][k], f)))
       [] OTHER ->
            Clause(nm, \A b \in B : \A i \in 0..(e.n-1) : \A f \in F :
                         e.out[b][i+1][f] = Fold(e.mode, DVals(e, b, i, f)))

Gather(e) ==
  IF e.exc # "" THEN {"gather raised on valid input"} ELSE
  IF e.oshape # e.want THEN {"shape of the gathered values"} ELSE
  LET B == 1..Len(e.x) IN
  CASE e.lay = "sparse" ->
         Clause("gather takes entry k from node idx[k]",
           \A b \in B : \A k \in 1..Len(e.idx[b]) :
             e.idx[b][k] < e.n => e.out[b][k] = e.x[b][e.idx[b][k] + 1])
    [] e.lay = "dense" ->
         Clause("gather takes entry (i,k) from node adj[i][k]",
           \A b \in B : \A i \in 1..Len(e.idx[b]) : \A k \in 1..Len(e.idx[b][i]) :
             e.idx[b][i][k] < e.n => e.out[b][i][k] = e.x[b][e.idx[b][i][k] + 1])
    [] OTHER -> Clause("dense destination values line up with the rows",
           \A b \in B : \A i \in 1..Len(e.x[b]) : e.out[b][i] = <<e.x[b][i]>>)

\* Softmax: out is 10^4 * p; flattened per node into sequences by the spec.
Members(e, b, i) ==
  IF e.lay = "sparse" THEN SelectSeq([k \in 1..Len(e.dst[b]) |-> k], LAMBDA k: e.dst[b][k] = i)
  ELSE SelectSeq([k \in 1..Len(e.where[b][i+1]) |-> k], LAMBDA k: e.where[b][i+1][k])
Val(e, a, b, i, k) == IF e.lay = "sparse" THEN a[b][k] ELSE a[b][i+1][k]

SoftNode(e, b, i) ==
  LET ks  == Members(e, b, i)
      n   == Len(ks)
      x   == [j \in 1..n |-> Val(e, e.x, b, i, ks[j])]
      m   == [j \in 1..n |-> Val(e, e.mask, b, i, ks[j])]
      p   == [j \in 1..n |-> Val(e, e.out, b, i, ks[j])]
      w   == [j \in 1..n |-> Val(e, e.w, b, i, ks[j])]
      g   == [j \in 1..n |-> Val(e, e.grad, b, i, ks[j])]
      mx  == FoldLeft(LAMBDA u, v: Max2(u, v), -INF, x)
      num == [j \in 1..n |-> SoftNum(m, x, mx, j)]
      den == SumSeq(num)
      wp  == SumSeq([j \in 1..n |-> w[j] * p[j]])
  IN IF n = 0 THEN {}
     ELSE IF den = 0 THEN Clause("fully masked neighbourhood has zero weights", \A j \in 1..n : p[j] = 0)
     ELSE Clause("softmax weights", \A j \in 1..n : AbsI(p[j] * den - num[j] * 10000) <= 3 * den)
          \cup Clause("softmax derivative",
                 \A j \in 1..n : AbsI(g[j] - (p[j] * (w[j] * 10000 - wp)) \div 10000) <= 25)

Softmax(e) ==
  IF e.exc # "" THEN {"softmax raised on valid input"} ELSE
  IF ~e.finite THEN {"softmax weights of real entries are finite"} ELSE
  IF ~e.gfinite THEN {"softmax derivatives are finite"} ELSE
  UNION {SoftNode(e, b, i) : b \in 1..Len(e.x), i \in 0..(e.n-1)}

Fails(e) == CASE e.op = "reduce" -> Reduce(e)
              [] e.op = "gather" -> Gather(e)
              [] e.op = "softmax" -> Softmax(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks /\ UNCHANGED gvars
TInit == TraceInit /\ GInit
=============================================================================
