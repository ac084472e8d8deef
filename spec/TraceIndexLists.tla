--------------------------- MODULE TraceIndexLists ---------------------------
(* Recorded calls of the index-list functions against module Graph.          *)
EXTENDS TraceBase, Graph
tN == 0
tMaxLen == 0

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* e.out[b] is the dense list of batch b; e.oshape its full shape.
S2D(e) ==
  IF e.exc # "" THEN {"sparse_to_dense raised on valid input"} ELSE
  LET nb   == Len(e.dst)
      impl == [b \in 1..nb |-> e.oshape[Len(e.oshape) - 1]]
      rows == e.oshape[Len(e.oshape) - 1]
      p    == IF e.pad >= 0 THEN e.pad ELSE rows
      in(b) == IF e.pad >= 0 THEN SparseEdges(e.dst[b], e.src[b], p)
               ELSE [k \in 1..Len(e.dst[b]) |-> <<e.dst[b][k], e.src[b][k]>>]
      maxd == MaxOf(UNION {ToSet(e.dst[b]) : b \in 1..nb}, -1)
  IN Clause("dense list keeps the batch dimensions",
            SubSeq(e.oshape, 1, Len(e.oshape) - 2) = e.bshape)
     \cup Clause("dense list has one row per node",
            IF e.pad >= 0 THEN rows = e.pad ELSE rows > maxd)
     \cup Clause("dense list has exactly the edges of the sparse list",
            Len(e.out) = nb /\ \A b \in 1..nb : SameBag(DenseEdges(e.out[b], p), in(b)))

D2S(e) ==
  IF e.exc # "" THEN {"dense_to_sparse raised on valid input"} ELSE
  LET nb == Len(e.adj)
      all == UNION {UNION {ToSet(e.adj[b][i]) : i \in 1..Len(e.adj[b])} : b \in 1..nb}
      rows == IF nb = 0 THEN 0 ELSE Len(e.adj[1])
      p  == IF e.pad >= 0 THEN e.pad ELSE Max2(rows, 1 + MaxOf(all, -1))
      in(b) == DenseEdges(e.adj[b], p)
  IN Clause("sparse list keeps the batch dimensions",
            /\ e.dshape = e.sshape
            /\ SubSeq(e.dshape, 1, Len(e.dshape) - 1) = e.bshape)
     \cup Clause("sparse padding is padding in both lists",
            \A b \in 1..nb : \A k \in 1..Len(e.dst[b]) : (e.dst[b][k] >= p) <=> (e.src[b][k] >= p))
     \cup Clause("sparse list has exactly the edges of the dense list",
            Len(e.dst) = nb /\ \A b \in 1..nb : SameBag(SparseEdges(e.dst[b], e.src[b], p), in(b)))

RoundTripCall(e) ==
  IF e.exc # "" THEN {"conversion round trip raised on valid input"} ELSE
  Clause("conversion round trip keeps the edges",
     \A b \in 1..Len(e.dst) :
        SameBag(SparseEdges(e.dst2[b], e.src2[b], e.pad), SparseEdges(e.dst[b], e.src[b], e.pad)))

Pairs(e) ==
  IF e.num < 1 THEN Clause("pairwise lists reject num < 1", e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {"pairwise list raised on valid input"} ELSE
  LET want == AllPairs(e.num, e.mask)
      sp   == [k \in 1..Len(e.dst) |-> <<e.dst[k], e.src[k]>>]
      de   == DenseEdges(e.adj, e.num)
  IN Clause("sparse pairwise list has every ordered pair exactly once",
            ToSet(sp) = want /\ Len(sp) = Cardinality(want))
     \cup Clause("dense pairwise list has every ordered pair exactly once",
            /\ e.ashape = <<e.num, IF e.mask THEN e.num - 1 ELSE e.num>>
            /\ ToSet(de) = want /\ Len(de) = Cardinality(want))

Fails(e) == CASE e.op = "s2d" -> S2D(e)
              [] e.op = "d2s" -> D2S(e)
              [] e.op = "rt"  -> RoundTripCall(e)
              [] e.op = "pairs" -> Pairs(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks /\ UNCHANGED gvars
TInit == TraceInit /\ GInit
=============================================================================
