----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Recorded stores against StoreLog.tla (C10).  "Have" is what the driver  *)
(* puts there itself, to start from: it answers for that.                  *)
(***************************************************************************)
EXTENDS StoreLog, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Kids == {e.kids[i] : i \in DOMAIN e.kids}

Init == l = 1 /\ st = <<>>
\* Store n of a case: the first one begins the case.
Store == Is("Store") /\ st' = [i \in 1..e.s |-> IF i < e.s THEN st[i] ELSE Empty]
Have  == Is("Have") /\ st' = [st EXCEPT ![e.s] = With(@, e.id, Kids)]
Put   == Is("Put") /\ CanPut(st[e.s], Kids) /\ st' = [st EXCEPT ![e.s] = With(@, e.id, Kids)]
Gone  == Is("Gone") /\ st' = [st EXCEPT ![e.s] = Without(@, e.id)]
Root  == Is("Root") /\ Whole(st[e.s], {e.id}, {}) /\ UNCHANGED st
Next == Store \/ Have \/ Put \/ Gone \/ Root
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
