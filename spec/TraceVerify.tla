----------------------------- MODULE TraceVerify -----------------------------
(* Recorded verifications of trickle DAGs against Verify.tla (C23). *)
EXTENDS Verify, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
vars == <<l>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1
Check ==
  /\ Is("Verify") /\ e.res = "ok"
  /\ e.adds = 0 /\ e.kept
  /\ IF e.fault THEN e.err # "nil" ELSE (e.err = "nil") = Accept(e.tree, e)
Next == Check
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
