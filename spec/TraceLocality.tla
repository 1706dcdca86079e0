--------------------------- MODULE TraceLocality ---------------------------
(* Recorded fetches against Locality.tla (C30). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

\* Children of a node are requested ten at a time, and again when less than
\* five of those to come are requested.
INSTANCE Locality WITH Ahead <- 13

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, N, meta, may, passes, dir
vars == <<l, N, meta, may, passes, dir>>

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

NoDir == [nodes |-> 0, shards |-> <<>>, digits |-> <<>>]
Init == l = 1 /\ N = <<>> /\ meta = FALSE /\ may = {} /\ passes = 0 /\ dir = NoDir

File == /\ Is("File")
        /\ N' = e.nodes /\ meta' = e.meta /\ may' = {} /\ passes' = 1
        /\ dir' = NoDir

\* Requests are made ahead and may be served late: what was fetched so far is
\* within what was needed so far.  Without seeks nothing is fetched twice.
Do == /\ Is("Do") /\ e.res = "ok" /\ e.err = "nil"
      /\ may' = may \cup Needs(N, meta, e)
      /\ passes' = CASE e.op = "seek" -> passes + 1
                     [] e.op \in {"seekmod", "readmod", "write", "truncate"} -> passes + 3
                     [] OTHER -> passes
      /\ \A x \in ToSet(e.got) : x[1] \in may' /\ x[2] <= passes'
      /\ UNCHANGED <<N, meta, dir>>

Dir == /\ Is("Dir")
       /\ dir' = [nodes |-> e.nodes, shards |-> e.shards, digits |-> e.digits]
       /\ N' = <<>> /\ meta' = FALSE /\ may' = {} /\ passes' = 0

Look == /\ Is("Look") /\ e.res = "ok" /\ e.err \in {"nil", "notexist"}
        /\ e.etc = 0
        /\ LET S == Shards(dir.shards, dir.digits[e.name], e.op)
           IN \A x \in ToSet(e.got) :
                IF x[1] <= dir.nodes THEN x[1] \in Entries(e.vals, e.op) /\ x[2] <= Times(e.vals, e.op, x[1])
                ELSE x[1] - dir.nodes \in S /\ x[2] = 1
        /\ UNCHANGED <<N, meta, may, passes, dir>>

Next == File \/ Do \/ Dir \/ Look
Spec == Init /\ [][Next]_vars
Short == [at |-> l]
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
