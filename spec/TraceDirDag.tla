---------------------------- MODULE TraceDirDag -----------------------------
(* Recorded uses of sharded directories of any shape against DirDag (C29).   *)
EXTENDS DirDag, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          h,    \* the hashes of the names
          st,   \* the stored directory
          t     \* that of the handle
vars == <<l, h, st, t>>
e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ h = <<>> /\ st = NoTree /\ t = NoTree
Dag  == Is("Dag") /\ h' = e.h /\ st' = e.tree /\ t' = e.tree
Open == Is("Open") /\ e.res = "ok" /\ UNCHANGED <<h, st, t>>
        /\ e.err = (IF st.k = "shard" THEN "nil" ELSE "other")

Listing(x, ordered) ==
  LET w == List(x) IN
  IF w.ok THEN e.err = "nil" /\ (IF ordered THEN e.es = w.es ELSE Same(e.es, w.es))
  ELSE e.err = "other" /\ (IF ordered THEN e.es = w.es ELSE Within(e.es, All(x)))

Lookup(x) == LET w == Look(x, h, e.n, 0, Bits) IN
             e.err = w.r /\ (w.r = "nil" => e.v = w.v)

\* What Swap and Take return: the entry there was, if any.
Was == e.err = "nil" => e.old \in {-1, Look(t, h, e.n, 0, Bits).v}

Do ==
  /\ Is("Do") /\ e.res = "ok" /\ h' = h
  /\ CASE e.op = "Add" ->
            LET r == Add(t, h, e.n, e.v, 0, Bits) IN
            e.err = (IF r.ok THEN "nil" ELSE "other") /\ Was /\ t' = r.t /\ st' = st
       [] e.op = "Remove" ->
            LET r == Del(t, h, e.n, 0, Bits) IN
            e.err = r.r /\ Was /\ t' = r.t /\ st' = st
       [] e.op = "Find"    -> Lookup(t) /\ UNCHANGED <<st, t>>
       [] e.op = "Resolve" -> Lookup(st) /\ UNCHANGED <<st, t>>
       [] e.op \in {"Links", "Enum"} -> Listing(t, FALSE) /\ UNCHANGED <<st, t>>
       [] e.op = "Each"    -> Listing(t, TRUE) /\ UNCHANGED <<st, t>>
       [] e.op = "View"    -> Listing(st, FALSE) /\ UNCHANGED <<st, t>>
       [] e.op = "Node" ->
            \/ e.err = "other" /\ HasInv(t) /\ UNCHANGED <<st, t>>
            \/ e.err = "nil" /\ e.tree = t /\ st' = t /\ t' = t

Next == Dag \/ Open \/ Do
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
