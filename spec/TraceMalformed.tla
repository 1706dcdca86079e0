--------------------------- MODULE TraceMalformed ---------------------------
(* Recorded calls on malformed DAGs against Malformed.tla (C18). *)
EXTENDS Malformed, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, below
vars == <<l, below>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ below = <<>>
Dag  == Is("Dag") /\ below' = Below(e.nodes)
Call == Is("Call") /\ Ends(e) /\ Bounded(below, e) /\ below' = below
Next == Dag \/ Call
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
