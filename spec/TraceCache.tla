------------------------------ MODULE TraceCache -----------------------------
(* Validation of recorded schedules against CacheFile: the observed states of *)
(* the file and the answers must be those of a behaviour of CacheFile in      *)
(* which every recorded step of a process is a sequence of its Load, Write    *)
(* and Rename actions.                                                        *)
EXTENDS TraceBase

None == -1
Bad == -2
Seen(f) == IF f = Bad THEN None ELSE f

\* state of the walk over the steps: the file, per process what it asked for,
\* what it found, whether it has stored its table, and the broken clauses
Start0 == [file |-> None, want |-> <<>>, on |-> <<>>, seen |-> <<>>, wrote |-> <<>>, hurt |-> <<>>, bad |-> {}]
Set(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]

Begin(s, e) == [s EXCEPT !.want = Set(@, e.p, e.want), !.on = Set(@, e.p, e.on),
                         !.seen = Set(@, e.p, -9), !.wrote = Set(@, e.p, FALSE),
                         !.hurt = Set(@, e.p, FALSE),
                         !.bad = @ \cup Clause("the file changes only when a process writes it", e.file = s.file)]
\* a process moves: its first move loads the cache
Move(s, e, writable) ==
  LET p == e.p
      seen == IF s.seen[p] # -9 THEN s.seen[p] ELSE IF s.on[p] THEN Seen(s.file) ELSE None
      need == s.on[p] /\ seen < s.want[p]
      hurt == s.hurt[p] \/ e.a = "fail"
      wrote == s.wrote[p] \/ e.file >= s.want[p]
  IN [s EXCEPT !.file = e.file, !.seen = Set(@, p, seen), !.wrote = Set(@, p, wrote),
               !.hurt = Set(@, p, hurt),
               !.bad = @
    \cup Clause("the cache file is complete at every moment", e.file = Bad => s.file = Bad)
    \cup Clause("a process stores only the table it was asked for, and only if the cache lacks it",
                e.file = s.file \/ (need /\ e.file = s.want[p]))
    \cup Clause("every request is answered", e.st \in {"paused", "done"} \/ e.a = "kill")
    \cup Clause("every answer is the full table", e.st = "done" => e.ok = 1)
    \cup Clause("a generated table is kept for later processes",
                (e.st = "done" /\ need /\ writable /\ ~hurt) => wrote)]
Kill(s, e) == [s EXCEPT !.file = e.file,
   !.bad = @ \cup Clause("the cache file is complete at every moment", e.file = Bad => s.file = Bad)
             \cup Clause("a stopped process leaves the file as it was or complete",
                    e.file = s.file \/ e.file = s.want[e.p])]
Env(s, e) == [s EXCEPT !.file = e.file]

RECURSIVE Walk(_, _, _, _)
Walk(steps, i, s, w) ==
  IF i > Len(steps) THEN s
  ELSE LET e == steps[i] IN
       Walk(steps, i + 1,
            CASE e.a = "start" -> Begin(s, e)
              [] e.a \in {"step", "fail"} -> Move(s, e, w)
              [] e.a = "kill" -> Kill(s, e)
              [] OTHER -> Env(s, e), w)

MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y
CliCall(e) ==
  Clause("the command stores the requested table",
     \A i \in 1..Len(e.seen) :
       LET top == MaxI({e.asked[j] : j \in 1..i}) IN
       IF top <= e.shipped THEN e.seen[i] \in {-1} \cup 0..top ELSE e.seen[i] = top)
  \cup Clause("a table stored by the command is the full table", e.st = "done" /\ e.ok = 1)

Fails(e) == CASE e.op = "cache" -> Walk(e.steps, 1, Start0, e.writable).bad
              [] e.op = "cli" -> CliCall(e)
              [] OTHER -> {"unknown event"}
TraceNext == l <= Len(Trace) /\ Report(l, Fails(Trace[l])) /\ l' = l + NChunks
=============================================================================
