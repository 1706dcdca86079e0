---------------------------- MODULE TraceReader ----------------------------
(* Recorded histories of DagReaders against DagReader.tla (C05, C06). *)
EXTENDS DagReader, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

TInit == l = 1 /\ data = <<>> /\ pos = 0 /\ debt = 0 /\ depth = 0 /\ faults = 0

TOpen == Is("Open") /\ e.res = "ok" /\ e.size = Len(e.data) /\ Open(e.data, e.depth)

TRead == /\ Is("Read") /\ e.res = "ok"
         /\ Read(e.n, e.cnt, e.got, e.err, e.full, e.faults, e.ctx \/ e.closed)
         /\ pos' = e.pos
TSeek == /\ Is("Seek") /\ e.res = "ok"
         /\ Seek(e.off, e.wh, e.ret, e.err, e.pos, e.faults, e.closed)
         /\ pos' = e.pos
TWriteTo == /\ Is("WriteTo") /\ e.res = "ok"
            /\ WriteTo(e.lim, e.cnt, e.got, e.err, e.faults, e.closed)
            /\ pos' = e.pos
TClose == Is("Close") /\ e.res = "ok" /\ UNCHANGED vars

TNext == TOpen \/ TRead \/ TSeek \/ TWriteTo \/ TClose
Spec == TInit /\ [][TNext]_<<vars, l>>
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
