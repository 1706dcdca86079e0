---------------------------- MODULE TraceHandles ----------------------------
(* Recorded uses of several directories on the same nodes against Handles.tla (C26). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

H == INSTANCE Handles WITH Names <- 0, Steps <- 0, Emit <- FALSE, maps <- <<>>, hist <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          hs,      \* the map of each handle
          ns       \* [id, ents] of each node
vars == <<l, hs, ns>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ hs = <<>> /\ ns = <<>>

Of(list) == {<<list[i][1], list[i][2]>> : i \in DOMAIN list}
Same(list, ents) == Len(list) = Cardinality(ents) /\ Of(list) = ents

\* The first node, made by the driver.
Base == Is("Base") /\ hs' = <<>> /\ ns' = <<[id |-> e.id, ents |-> Of(e.list)]>>

Load == /\ Is("Load") /\ e.res = "ok" /\ e.err = "nil"
        /\ LET x == ns[e.n].ents
               m == [k \in 1..e.names |-> IF \E y \in x : y[1] = k THEN (CHOOSE y \in x : y[1] = k)[2] ELSE 0]
           IN  hs' = Append(hs, m)
        /\ ns' = ns

Edit == /\ Is("Edit") /\ e.res = "ok"
        /\ IF e.x = 0 /\ hs[e.h][e.name] = 0 THEN e.err = "notexist" /\ hs' = hs
           ELSE e.err = "nil" /\ hs' = [hs EXCEPT ![e.h] = H!Put(@, e.name, e.x)]
        /\ ns' = ns

\* A node taken from a handle.
Take == /\ Is("Take") /\ e.res = "ok" /\ e.err = "nil"
        /\ Same(e.list, H!Entries(hs[e.h]))
        /\ ns' = Append(ns, [id |-> e.id, ents |-> Of(e.list)])
        /\ hs' = hs

Look == /\ Is("Look") /\ e.res = "ok" /\ e.err = "nil" /\ Same(e.list, H!Entries(hs[e.h]))
        /\ UNCHANGED <<hs, ns>>

\* A node as it is now.
Check == /\ Is("Check") /\ e.id = ns[e.n].id /\ Same(e.list, ns[e.n].ents)
         /\ UNCHANGED <<hs, ns>>

Next == Base \/ Load \/ Edit \/ Take \/ Look \/ Check
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
