---------------------------- MODULE TraceResolve ----------------------------
(* Recorded path resolutions against Resolve.tla (C19). *)
EXTENDS Resolve, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, dir, sizes
vars == <<l, dir, sizes>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ dir = <<>> /\ sizes = <<>>
RDir == Is("RDir") /\ dir' = e.ents /\ sizes' = [i \in DOMAIN e.nodes |-> e.nodes[i].ts]
Resolved == /\ Is("Resolve") /\ e.res = "ok"
            /\ Answer(dir, sizes, e.path, e)
            /\ IOEnv.PROP = "C19" => OnlyLooks(e)
            /\ IOEnv.PROP = "C12" => OnPath(e)
            /\ Agrees(dir, e.path, e.found)
            /\ UNCHANGED <<dir, sizes>>
Next == RDir \/ Resolved
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
