----------------------------- MODULE TraceEnum -----------------------------
(* Recorded listings of directories against Listing.tla (C15). *)
EXTENDS Listing, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, S
vars == <<l, S>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ S = {}

Enum0 ==
  /\ Is("Enum0")
  /\ S' = {<<n, e.ents[n], e.nodes[e.ents[n]].ts>> : n \in {i \in 1..Len(e.ents) : e.ents[i] # 0}}

\* An error that comes from the context stands for a cancelled context only.
Enum ==
  /\ Is("Enum")
  /\ e.res = "ok"
  /\ ~e.leak
  /\ LET errs == IF e.how = "Enum" THEN e.errs ELSE IF e.err = "nil" THEN 0 ELSE 1
     IN  \* Links and ForEachLink return the error, there is no other sign.
         /\ ListingOK(e.list, S, errs, IF e.how = "Enum" THEN e.cancelled ELSE FALSE, e.fault \/ e.cancelled)
         /\ (e.err = "ctx" /\ ~e.fault) => e.cancelled
         /\ e.late = 0
  /\ S' = S

Next == Enum0 \/ Enum
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
