---------------------------- MODULE TraceContext ----------------------------
(* Recorded operations, with contexts that end, against Contexts.tla (C27). *)
EXTENDS Contexts, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, f, es
vars == <<l, f, es>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ f = Fresh(<<>>) /\ es = {}

File    == Is("File") /\ f' = Fresh(e.c) /\ es' = {}
Entries == Is("Entries") /\ es' = ToSet(e.ents) /\ f' = Fresh(<<>>)

Open == /\ Is("Open") /\ Came(e)
        /\ IF Gave(e) THEN TRUE ELSE GaveUp(e)
        /\ UNCHANGED <<f, es>>
Read == /\ Is("Read") /\ Came(e)
        /\ IF Gave(e) THEN ReadAnswer(f, e) ELSE GaveUp(e) /\ ReadPartial(f, e)
        /\ f' = AfterReading(f, e)
        /\ e.pos = f'.off
        /\ es' = es
Mod == /\ Is("Mod") /\ Came(e)
       /\ IF Gave(e) THEN ModAnswer(f, e) ELSE GaveUp(e) /\ ReadPartial(f, e)
       /\ f' = AfterMod(f, e)
       /\ es' = es
Dir == /\ Is("Dir") /\ Came(e) /\ e.closed
       /\ IF Gave(e) THEN DirAnswer(es, e) ELSE GaveUp(e) /\ DirPartial(es, e)
       /\ es' = AfterDir(es, e)
       /\ f' = f
App == /\ Is("Append") /\ Came(e)
       /\ IF Gave(e) THEN e.got = f.c \o e.d ELSE GaveUp(e)
       /\ f' = IF Gave(e) THEN Fresh(f.c \o e.d) ELSE f
       /\ es' = es
\* Nothing is left waiting when all the contexts have ended.
End == Is("End") /\ ~e.leak /\ UNCHANGED <<f, es>>

Next == File \/ Entries \/ Open \/ Read \/ Mod \/ Dir \/ App \/ End
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
