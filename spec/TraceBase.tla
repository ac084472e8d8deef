----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded calls: every event of the trace is consumed by one  *)
(* step; `Fails(e)` (given by the extending module) is the set of names of    *)
(* specification clauses that event e breaks.  Verdicts are total: a failing  *)
(* event is reported and the rest of the trace is still checked.  The trace   *)
(* is consumed in eight interleaved chunks so that TLC's workers share it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
NChunks == 8

VARIABLE l

TraceInit == l \in 1..NChunks

\* If(c, n): the failing-clause set of clause n with condition c.
Clause(name, cond) == IF cond THEN {} ELSE {name}

Report(i, f) == IF f = {} THEN TRUE ELSE PrintT(ToJson([i |-> i, fails |-> SetToSeq(f)]))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
SumSeq(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
=============================================================================
