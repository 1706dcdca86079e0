----------------------------- MODULE TraceKinds -----------------------------
(* Recorded openings of objects against Kinds.tla (C25). *)
EXTENDS Kinds, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, obj
vars == <<l, obj>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ obj = [k |-> "none"]
Object == Is("Object") /\ obj' = e.node

Open ==
  /\ Is("Open") /\ e.res = "ok"
  /\ e.same /\ e.stored = 0
  /\ IF e.fault THEN e.err # "nil" /\ e.got.k = "none"
     ELSE LET o == Outcome(e.what, obj) IN
          /\ IF o[1] = "some" THEN e.err # "nil" ELSE e.err = o[1]
          /\ e.got.k = o[2]
          /\ e.err = "nil" => ContentOK(e.what, obj, e.got)
  /\ obj' = obj

(* A new sharded directory: of a width that can be opened again, or none.   *)
New ==
  /\ Is("New") /\ e.res = "ok"
  /\ e.ok = (e.w \in Widths)
  /\ e.ok => e.fan = e.w /\ e.hash = Murmur3
  /\ obj' = obj

Next == Object \/ Open \/ New
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
