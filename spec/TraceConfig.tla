------------------------------ MODULE TraceConfig -----------------------------
(* Validation of recorded configuration histories.  Every call records which  *)
(* full explicit assignments of the options give the same result.             *)
EXTENDS TraceBase
Cf == INSTANCE Config

Get(e, k) == IF k \in DOMAIN e THEN e[k] ELSE ""
CallOk(c, h) ==
  LET eff == Cf!Effective(c, h.s, [o \in {k \in Cf!Options : Get(h.x, k) # ""} |-> h.x[o]])
      same(m) == \A o \in Cf!Reads(h.s) : Cf!Canon(o, m[o]) = eff[o]
  IN IF h.exc # "" THEN {"a call with valid options raised"} ELSE
     Clause("a call uses the explicit value, or else the configured one",
            \E i \in 1..Len(h.match) : same(h.match[i]))
     \cup Clause("a call reads only its documented options, and distinguishes their values",
            /\ \A i \in 1..Len(h.match) : same(h.match[i])
            /\ \A i \in 1..Len(h.all) : same(h.all[i]) => h.all[i] \in {h.match[j] : j \in 1..Len(h.match)})

RECURSIVE Walk(_, _, _, _)
Walk(hist, i, c, bad) ==
  IF i > Len(hist) THEN bad
  ELSE LET h == hist[i]
           c2 == CASE h.a = "set" -> [c EXCEPT ![h.o] = h.v]
                   [] h.a = "reset" -> [c EXCEPT ![h.o] = Cf!Default[h.o]]
                   [] OTHER -> c
           f == Clause("the configuration holds the values that were set last", h.cfg = c2)
                \cup (CASE h.a = "bad" -> Clause("an invalid value is rejected", h.exc = "ValueError")
                        [] h.a = "call" -> CallOk(c2, h)
                        [] OTHER -> Clause("a valid value is accepted", h.exc = ""))
       IN Walk(hist, i + 1, c2, bad \cup f)
Fails(e) == CASE e.op = "history" -> Walk(e.hist, 1, Cf!Default, {})
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
