---------------------------- MODULE TraceFileDag ----------------------------
(* Recorded readings of files of any shape against FileDag.tla (C28).        *)
EXTENDS FileDag, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rd
vars == <<l, rd>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ rd = <<>>
Dag  == Is("Dag") /\ rd' = Fresh(e.nodes, e.root)
Open == Is("Open") /\ e.res = "ok" /\ e.err = "nil" /\ rd' = rd
Do ==
  /\ Is("Do") /\ e.res = "ok"
  /\ CASE e.op = "Read"    -> ReadOK(rd, e) /\ rd' = AfterRead(rd, e)
       [] e.op = "WriteTo" -> WriteOK(rd, e) /\ rd' = AfterWrite(rd)
       [] e.op = "Seek"    -> SeekOK(rd, e) /\ rd' = AfterSeek(rd, e)
  /\ e.pos \in {-1, rd'.off}

Next == Dag \/ Open \/ Do
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
