------------------------------ MODULE MCConfig -------------------------------
(* State machine of configuration changes and calls.                          *)
EXTENDS Config, Json
CONSTANTS Sites, MaxLen, Alternate     \* Alternate: changes and calls in turn
VARIABLES cfg, hist
vars == <<cfg, hist>>
SiteSet == IF Sites = "light" THEN Light ELSE Heavy
Log(r) == hist' = Append(hist, r)
Init == cfg = Default /\ hist = <<>>
\* explicit arguments: any partial assignment of what the site reads
Explicits(s) == UNION {{f \in [D -> Orders \cup Norms \cup Fused] : \A o \in D : f[o] \in Values(o)}
                       : D \in SUBSET Reads(s)}
Set(o, v)  == cfg' = [cfg EXCEPT ![o] = v] /\ Log([a |-> "set", o |-> o, v |-> v])
Reset(o)   == cfg' = [cfg EXCEPT ![o] = Default[o]] /\ Log([a |-> "reset", o |-> o, v |-> ""])
Bad        == cfg' = cfg /\ Log([a |-> "bad", o |-> "norm", v |-> "no such normalization"])
Call(s, x) == cfg' = cfg /\ Log([a |-> "call", s |-> s, x |-> x, e |-> Effective(cfg, s, x)])
Next == /\ Len(hist) < MaxLen
        /\ \/ /\ ~Alternate \/ Len(hist) % 2 = 0
              /\ (\E o \in Options : (\E v \in Values(o) : Set(o, v)) \/ Reset(o)) \/ Bad
           \/ /\ ~Alternate \/ Len(hist) % 2 = 1
              /\ \E s \in SiteSet : \E x \in Explicits(s) : Call(s, x)
Spec == Init /\ [][Next]_vars
\* ---- properties of the design
TypeOK == cfg \in [order : Orders, norm : Norms, fused : Fused]
\* a call never changes the configuration and sees only what it reads
CallsAreReads == [][ \A s \in SiteSet : (Len(hist') > Len(hist) /\ hist'[Len(hist')].a = "call") => cfg' = cfg ]_vars
ExplicitWins == \A s \in SiteSet : \A x \in Explicits(s) :
                  \A o \in DOMAIN x : Effective(cfg, s, x)[o] = Canon(o, x[o])
Unread == \A s \in SiteSet : \A c \in [order : Orders, norm : Norms, fused : Fused] :
            (\A o \in Reads(s) : c[o] = cfg[o]) => Effective(c, s, <<>>) = Effective(cfg, s, <<>>)
View == cfg
Emit == Len(hist) = MaxLen => PrintT(ToJson([hist |-> hist]))
=============================================================================
